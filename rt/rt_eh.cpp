// Exceptions for the engine only (the native replay uses the real libstdc++). Everything here runs as one indivisible block.
#include <exception>
#include <stdexcept>
#include <typeinfo>
#include <new>
#include <string>
#include <optional>
#include <variant>
#include <functional>
#include <memory>
#include <future>
#include <cstring>
#include <cstdlib>
#define RT __attribute__((section("vkrt"), noinline))
extern "C" { [[noreturn]] void vk_unwind(void*); [[noreturn]] void vk_fail(const char*); }
struct VkObj { long refs; std::type_info* ti; void (*dtor)(void*); long pad; };
struct VkInst { void* adj; void* obj; std::type_info* ti; VkInst* next; long handlers; };
static thread_local VkInst* vkCaught = nullptr; static thread_local int vkFlying = 0;   // thrown and not yet caught
static VkObj* hdr(void*) RT; static VkObj* hdr(void* o) { return static_cast<VkObj*>(o) - 1; }
static void addref(void*) RT; static void addref(void* o) { __atomic_fetch_add(&hdr(o)->refs, 1, __ATOMIC_ACQ_REL); }
static void unref(void*) RT; static void unref(void* o) { if (__atomic_fetch_sub(&hdr(o)->refs, 1, __ATOMIC_ACQ_REL) == 1) { if (hdr(o)->dtor) hdr(o)->dtor(o); free(hdr(o)); } }
static VkInst* inst(void*) RT; static VkInst* inst(void* o) { VkInst* i = (VkInst*)malloc(sizeof(VkInst)); i->adj = o; i->obj = o; i->ti = hdr(o)->ti; i->next = nullptr; i->handlers = 0; return i; }
extern "C" {
void* __cxa_allocate_exception(unsigned long n) noexcept RT;
void* __cxa_allocate_exception(unsigned long n) noexcept { VkObj* h = (VkObj*)malloc(sizeof(VkObj) + n); h->refs = 0; h->ti = nullptr; h->dtor = nullptr; return h + 1; }
void __cxa_free_exception(void* p) noexcept RT; void __cxa_free_exception(void* p) noexcept { free(hdr(p)); }
__cxxabiv1::__cxa_refcounted_exception* __cxxabiv1::__cxa_init_primary_exception(void* o, std::type_info* ti, void (*d)(void*)) noexcept RT;
__cxxabiv1::__cxa_refcounted_exception* __cxxabiv1::__cxa_init_primary_exception(void* o, std::type_info* ti, void (*d)(void*)) noexcept { hdr(o)->ti = ti; hdr(o)->dtor = d; hdr(o)->refs = 0; return nullptr; }
[[noreturn]] void __cxa_throw(void* o, std::type_info* ti, void (*d)(void*)) RT;
void __cxa_throw(void* o, std::type_info* ti, void (*d)(void*)) { hdr(o)->ti = ti; hdr(o)->dtor = d; hdr(o)->refs = 1; vkFlying++; vk_unwind(inst(o)); }
void* __cxa_begin_catch(void* p) noexcept RT;
void* __cxa_begin_catch(void* p) noexcept { VkInst* i = (VkInst*)p; vkFlying--; if (vkCaught == i) { i->handlers = (i->handlers < 0 ? -i->handlers : i->handlers) + 1; } else { i->handlers = 1; i->next = vkCaught; vkCaught = i; } return i->adj; }
void* __cxa_get_exception_ptr(void* p) noexcept RT; void* __cxa_get_exception_ptr(void* p) noexcept { return ((VkInst*)p)->adj; }
void __cxa_end_catch() RT;
void __cxa_end_catch() { VkInst* i = vkCaught; if (!i) return; if (i->handlers < 0) { if (++i->handlers == 0) vkCaught = i->next; return; } if (--i->handlers == 0) { vkCaught = i->next; void* o = i->obj; free(i); unref(o); } }
[[noreturn]] void __cxa_rethrow() RT;
void __cxa_rethrow() { VkInst* i = vkCaught; if (!i) std::terminate(); i->handlers = -i->handlers; vkFlying++; vk_unwind(i); }
[[noreturn]] void __cxa_throw_bad_array_new_length() RT; void __cxa_throw_bad_array_new_length() { vk_fail("bad array new length"); }
}
namespace std {
int uncaught_exceptions() noexcept { return vkFlying; }
bool uncaught_exception() noexcept { return vkFlying > 0; }
namespace __exception_ptr {
exception_ptr::exception_ptr(void* p) noexcept : _M_exception_object(p) { if (p) addref(p); }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) addref(_M_exception_object); }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { unref(_M_exception_object); _M_exception_object = nullptr; } }
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
const class std::type_info* exception_ptr::__cxa_exception_type() const noexcept { return hdr(_M_exception_object)->ti; }
}
exception_ptr current_exception() noexcept RT;
exception_ptr current_exception() noexcept { exception_ptr r; if (vkCaught) { addref(vkCaught->obj); *reinterpret_cast<void**>(&r) = vkCaught->obj; } return r; }
void rethrow_exception(exception_ptr e) RT;
void rethrow_exception(exception_ptr e) { void* o = *reinterpret_cast<void**>(&e); if (!o) vk_fail("rethrow_exception of a null exception_ptr"); addref(o); vkFlying++; vk_unwind(inst(o)); }
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
static const char* dupStr(const char*, unsigned long) RT;
static const char* dupStr(const char* p, unsigned long n) { char* r = (char*)malloc(n + 1); for (unsigned long i = 0; i < n; i++) r[i] = p[i]; r[n] = 0; return r; }
__cow_string::__cow_string() : _M_p(nullptr) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(dupStr(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(o._M_p ? dupStr(o._M_p, strlen(o._M_p)) : nullptr) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { free((void*)_M_p); _M_p = o._M_p ? dupStr(o._M_p, strlen(o._M_p)) : nullptr; } return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { o._M_p = nullptr; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }
#define ERR(C) C::C(const char* s) : _M_msg(s, strlen(s)) {} C::C(const string& s) : _M_msg(s.c_str(), s.size()) {} C::~C() noexcept {} \
  C::C(C&& o) noexcept : exception(o), _M_msg(static_cast<__cow_string&&>(o._M_msg)) {} C& C::operator=(C&& o) noexcept { _M_msg = static_cast<__cow_string&&>(o._M_msg); return *this; } \
  C::C(const C& o) noexcept : exception(o), _M_msg(o._M_msg) {} C& C::operator=(const C& o) noexcept { _M_msg = o._M_msg; return *this; } \
  const char* C::what() const noexcept { return _M_msg._M_p; }
ERR(logic_error)
ERR(runtime_error)
#define ERR2(C, B) C::C(const char* s) : B(s) {} C::C(const string& s) : B(s) {} C::~C() noexcept {}
ERR2(invalid_argument, logic_error) ERR2(domain_error, logic_error) ERR2(length_error, logic_error) ERR2(out_of_range, logic_error) ERR2(range_error, runtime_error) ERR2(overflow_error, runtime_error) ERR2(underflow_error, runtime_error)
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int) { vk_fail("std::system_error (invalid use of a mutex or lock)"); }
void __throw_bad_optional_access();
const nothrow_t nothrow{};
// type_info
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
namespace __detail { struct _Prime_rehash_policy; }
}
