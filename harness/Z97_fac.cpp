//@ run quick map -DMODE=1
//@ run quick list -DMODE=2
//@ run quick deque -DMODE=3
//@ run quick umap -DMODE=4
//@ run quick func -DMODE=5
//@ run quick weakptr -DMODE=6
//@ run quick flag -DMODE=7
//@ run quick waitnotify -DMODE=8
//@ run quick sema -DMODE=9
//@ run quick latch -DMODE=10
//@ run quick scoped -DMODE=11
//@ run quick pq -DMODE=12
//@ run quick sort -DMODE=13
//@ run quick visit -DMODE=14
//@ run quick any -DMODE=15
//@ run quick string -DMODE=16
//@ run quick recmutex -DMODE=17
//@ run quick cvany -DMODE=18
//@ run quick tls -DMODE=19
//@ run quick once -DMODE=20
//@ run quick localstatic -DMODE=21
//@ run quick jthread -DMODE=22
//@ run quick shmutex -DMODE=23
//@ run quick atomref -DMODE=24
//@ run quick atomshared -DMODE=25
//@ run quick bits -DMODE=26
//@ run quick tuple -DMODE=27
//@ run quick dyncast -DMODE=28
//@ run quick future -DMODE=29
//@ run quick waituntil -DMODE=32
//@ run quick sleep -DMODE=33
//@ run quick exc -DMODE=34
//@ run quick span -DMODE=35
//@ run quick set -DMODE=36
//@ run quick fence -DMODE=37
//@ run quick barrier -DMODE=38
//@ run quick trymutex -DMODE=39
//@ run quick fwlist -DMODE=40
//@ run quick ranges -DMODE=41
//@ run quick memfn -DMODE=42
//@ run quick double -DMODE=43
//@ run quick atomstruct -DMODE=44
//@ run quick nested -DMODE=45
//@ run quick hash -DMODE=47
//@ run quick tid -DMODE=48
//@ run quick defer -DMODE=49
// Self-test of the encoded parts of libstdc++: every run must end without an alarm.
#include "hx.h"
#include <map>
#include <set>
#include <list>
#include <forward_list>
#include <deque>
#include <queue>
#include <unordered_map>
#include <functional>
#include <memory>
#include <memory_resource>
#include <semaphore>
#include <latch>
#include <barrier>
#include <algorithm>
#include <numeric>
#include <ranges>
#include <variant>
#include <any>
#include <string>
#include <sstream>
#include <shared_mutex>
#include <condition_variable>
#include <thread>
#include <future>
#include <span>
#include <bit>
#include <cmath>
#include <chrono>
#include <typeindex>
#include <optional>
#include <array>
static int p0() { volatile int z = 1; return z; }
static int sh; static std::mutex mx;
int main() {
  int v = vk_int("v"); (void)v;
#if MODE == 1
  std::map<int, std::string> m; m[3] = "c"; m[1] = "a"; m[2] = "b"; m.erase(2); CHECK(m.size() == 2 && m.begin()->first == 1 && m.find(3)->second == "c"); auto it = m.lower_bound(2); CHECK(it->first == 3);
#elif MODE == 2
  std::list<int> l; l.push_back(1); l.push_front(2); l.push_back(v); l.remove(1); CHECK(l.size() == 2 || v == 1); std::list<int> k; k.splice(k.begin(), l); CHECK(l.empty());
#elif MODE == 3
  std::deque<int> d; for (int i = 0; i < 300; i++) d.push_back(i); for (int i = 0; i < 200; i++) d.pop_front(); CHECK(d.front() == 200);
#elif MODE == 4
  std::unordered_map<int, int> m; for (int i = 0; i < 20; i++) m[i] = i * i; m.erase(5); CHECK(m.at(7) == 49 && m.count(5) == 0);
  std::unordered_map<void*, int> q; q[&m] = 1; CHECK(q.count(&m)); 
#elif MODE == 5
  std::function<int(int)> f = [&](int x) { return x + v; }; auto g = f; std::function<void()> h; CHECK(g(1) == v + 1 && !h); h = std::bind([&](int a) { sh = a; }, 4); h(); CHECK(sh == 4);
#elif MODE == 6
  auto p = std::make_shared<Tok>(1); std::weak_ptr<Tok> w = p; { auto q = w.lock(); CHECK(q && q.use_count() == 2); VkThread t([q]() mutable { q.reset(); }); t.start(); q.reset(); p.reset(); t.join(); } CHECK(w.expired());
#elif MODE == 7
  static std::atomic_flag f; VkThread t([&] { if (!f.test_and_set()) { sh = 1; f.clear(); } }); t.start(); if (!f.test_and_set(std::memory_order_acquire)) { sh = 2; f.clear(std::memory_order_release); } t.join();
#elif MODE == 8
  static std::atomic<int> a; VkThread t([&] { sh = 5; a.store(1); a.notify_one(); }); t.start(); a.wait(0); CHECK(sh == 5); t.join();
#elif MODE == 9
  static std::counting_semaphore<> s(0); static std::binary_semaphore b(0); VkThread t([&] { sh = 5; s.release(); b.acquire(); }); t.start(); s.acquire(); CHECK(sh == 5); b.release(); t.join();
#elif MODE == 10
  static std::latch l(2); VkThread t([&] { sh = 5; l.count_down(); }); t.start(); l.arrive_and_wait(); CHECK(sh == 5); t.join();
#elif MODE == 11
  static std::mutex m2; VkThread t([&] { std::scoped_lock l(m2, mx); sh++; }); t.start(); { std::scoped_lock l(mx, m2); sh++; } t.join(); CHECK(sh == 2);
#elif MODE == 12
  std::priority_queue<int, std::vector<int>, std::greater<>> q; q.push(5); q.push(v); q.push(7); int a = q.top(); q.pop(); int b = q.top(); CHECK(a <= b);
#elif MODE == 13
  std::vector<int> a{5, v, 3, 9}; std::sort(a.begin(), a.end()); CHECK(std::is_sorted(a.begin(), a.end())); std::vector<int> b{4, 2, 1}; std::stable_sort(b.begin(), b.end()); CHECK(b[0] == 1); auto it = std::partition(b.begin(), b.end(), [](int x) { return x > 1; }); CHECK(it - b.begin() == 2); CHECK(std::accumulate(b.begin(), b.end(), 0) == 7); std::rotate(b.begin(), b.begin() + 1, b.end()); std::reverse(b.begin(), b.end());
#elif MODE == 14
  std::variant<int, std::string, Tok> x; x = std::string("hello world, a long string"); int r = std::visit([](auto& y) { if constexpr (std::is_same_v<std::decay_t<decltype(y)>, std::string>) return (int)y.size(); else return 0; }, x); CHECK(r == 26); x.emplace<2>(3); try { (void)std::get<0>(x); CHECK(false); } catch (std::bad_variant_access&) {} auto y = std::move(x); CHECK(y.index() == 2);
#elif MODE == 15
  std::any a = 5; CHECK(std::any_cast<int>(a) == 5); a = std::string("x"); try { (void)std::any_cast<int>(a); CHECK(false); } catch (std::bad_any_cast&) {}
#elif MODE == 16
  std::string s = "abc"; s += "def"; s.append(30, 'x'); std::string t = s + std::to_string(42); CHECK(t.find("42") != std::string::npos && t.substr(0, 3) == "abc"); s = std::move(t); CHECK(s.compare("abc") > 0); std::string_view w = s; CHECK(w.starts_with("abc"));
#elif MODE == 17
  static std::recursive_mutex m; VkThread t([&] { std::lock_guard<std::recursive_mutex> a(m); std::lock_guard<std::recursive_mutex> b(m); sh++; }); t.start(); { std::lock_guard<std::recursive_mutex> a(m); sh++; } t.join(); CHECK(sh == 2);
#elif MODE == 18
  static std::condition_variable_any c; VkThread t([&] { { std::lock_guard<std::mutex> l(mx); sh = 1; } c.notify_all(); }); t.start(); { std::unique_lock<std::mutex> l(mx); c.wait(l, [] { return sh == 1; }); } t.join();
#elif MODE == 19
  static thread_local std::vector<int>* p; std::vector<int> z; p = &z; VkThread t([&] { CHECK(p == nullptr); static thread_local Tok tok(1); tok.get(); }); t.start(); t.join(); CHECK(p == &z);
#elif MODE == 20
  static std::once_flag f; VkThread t([&] { std::call_once(f, [] { sh++; }); CHECK(sh == 1); }); t.start(); std::call_once(f, [] { sh++; }); CHECK(sh == 1); t.join();
#elif MODE == 21
  auto f = []() -> std::vector<int>& { static std::vector<int> x{1, 2}; return x; }; VkThread t([&] { CHECK(f().size() == 2); }); t.start(); CHECK(f().size() == 2); t.join();
#elif MODE == 22
  { std::jthread j([](std::stop_token t) { sh = t.stop_possible(); }); } CHECK(sh == 1);
#elif MODE == 23
  static std::shared_mutex m; VkThread t([&] { std::unique_lock<std::shared_mutex> l(m); sh = 1; }); t.start(); { std::shared_lock<std::shared_mutex> l(m); CHECK(sh == 0 || sh == 1); } t.join();
#elif MODE == 24
  static int q; VkThread t([&] { std::atomic_ref<int>(q).fetch_add(1); }); t.start(); std::atomic_ref<int>(q).fetch_add(2); t.join(); CHECK(q == 3);
#elif MODE == 25
  static std::atomic<std::shared_ptr<Tok>> a; VkThread t([&] { a.store(std::make_shared<Tok>(2)); }); t.start(); auto p = a.load(); CHECK(!p || p->get() == 2); t.join(); a.store(nullptr);
#elif MODE == 26
  unsigned u = (unsigned)v; CHECK(std::popcount(u) <= 32); CHECK(std::has_single_bit(8u)); CHECK(std::bit_ceil(5u) == 8); CHECK(std::countr_zero(8u) == 3 && std::countl_zero(1u) == 31); if (u) CHECK(std::bit_width(u) >= 1); CHECK(std::rotl(1u, 4) == 16);
#elif MODE == 27
  auto t = std::make_tuple(1, std::string("a"), Mov(3)); auto u = std::move(t); CHECK(std::get<0>(u) == 1); auto r = std::apply([](int a, auto&&, auto&&) { return a; }, std::move(u)); CHECK(r == 1); std::array<int, 3> ar{1, 2, v}; CHECK(ar.back() == v); auto [x, y] = std::pair(1, 2); CHECK(x + y == 3); auto o = std::optional<Mov>(); o.emplace(4); auto o2 = std::exchange(o, std::nullopt); CHECK(o2.has_value());
#elif MODE == 28
  struct B { virtual ~B() {} virtual int f() { return 1; } }; struct D : B { int f() override { return 2; } }; struct E2 : B {}; std::unique_ptr<B> p(new D); CHECK(dynamic_cast<D*>(p.get()) && !dynamic_cast<E2*>(p.get()) && p->f() == 2); CHECK(typeid(*p) == typeid(D)); CHECK(std::type_index(typeid(D)) == std::type_index(typeid(*p)));
#elif MODE == 29
  std::promise<int> p; auto f = p.get_future(); VkThread t([&] { p.set_value(v); }); t.start(); CHECK(f.get() == v); t.join();
#elif MODE == 30
  std::ostringstream o; o << "a" << 5; CHECK(o.str() == "a5");
#elif MODE == 31
  std::byte buf[256]; std::pmr::monotonic_buffer_resource r(buf, sizeof buf); std::pmr::vector<int> x(&r); x.push_back(1); CHECK(x[0] == 1);
#elif MODE == 32
  static std::condition_variable c; std::unique_lock<std::mutex> l(mx); bool b = c.wait_for(l, std::chrono::milliseconds(5), [] { return sh == 1; }); CHECK(!b); auto s = c.wait_until(l, std::chrono::system_clock::now() + std::chrono::milliseconds(3)); (void)s; auto s2 = c.wait_until(l, std::chrono::steady_clock::now()); (void)s2;
#elif MODE == 33
  auto b = std::chrono::steady_clock::now(); std::this_thread::sleep_for(std::chrono::milliseconds(5)); CHECK(std::chrono::steady_clock::now() - b >= std::chrono::milliseconds(5)); std::this_thread::yield(); std::this_thread::sleep_until(b + std::chrono::milliseconds(7)); auto z = std::chrono::high_resolution_clock::now(); (void)z; (void)std::chrono::system_clock::now();
#elif MODE == 34
  try { try { throw Ex(4); } catch (...) { auto e = std::current_exception(); CHECK(std::uncaught_exceptions() == 0); std::throw_with_nested(std::runtime_error("out")); } } catch (std::exception& e) { try { std::rethrow_if_nested(e); } catch (Ex& x) { sh = 1; } } CHECK(sh == 1); struct G { ~G() { CHECK(std::uncaught_exceptions() == 1); } }; try { G g; throw std::logic_error("x"); } catch (const std::logic_error& e) { CHECK(std::string(e.what()) == "x"); } try { std::rethrow_exception(std::make_exception_ptr(std::system_error(std::make_error_code(std::errc::operation_canceled)))); } catch (std::system_error& e) { CHECK(e.code() == std::errc::operation_canceled); } try { std::vector<int> z; z.at(3); } catch (std::out_of_range&) { sh = 2; } CHECK(sh == 2);
#elif MODE == 35
  int a[4] = {1, 2, 3, v}; std::span<int> s(a); CHECK(s.size() == 4 && s.subspan(2)[1] == v); 
#elif MODE == 36
  std::set<int> s{3, 1, 2}; s.insert(0); CHECK(*s.begin() == 0 && s.size() == 4); std::multimap<int, int> m; m.emplace(1, 2); m.emplace(1, 3); CHECK(m.count(1) == 2); for (auto it = s.begin(); it != s.end();) it = s.erase(it); auto nh = m.extract(m.begin()); CHECK(nh.mapped() == 2);
#elif MODE == 37
  static std::atomic<int> x, y; static int a, b; VkThread t([&] { x.store(1, std::memory_order_relaxed); std::atomic_thread_fence(std::memory_order_seq_cst); a = y.load(std::memory_order_relaxed); }); t.start(); y.store(1, std::memory_order_relaxed); std::atomic_thread_fence(std::memory_order_seq_cst); b = x.load(std::memory_order_relaxed); t.join(); CHECK(a || b); std::atomic_signal_fence(std::memory_order_seq_cst);
#elif MODE == 38
  static std::barrier b(2); VkThread t([&] { b.arrive_and_wait(); }); t.start(); b.arrive_and_wait(); t.join();
#elif MODE == 39
  VkThread t([&] { if (mx.try_lock()) { sh = 1; mx.unlock(); } }); t.start(); std::unique_lock<std::mutex> l(mx, std::try_to_lock); if (l) { sh = 2; l.unlock(); } std::unique_lock<std::mutex> k(mx, std::defer_lock); k.lock(); k.unlock(); t.join();
#elif MODE == 40
  std::forward_list<int> l; l.push_front(1); l.push_front(v); l.reverse(); CHECK(l.front() == 1);
#elif MODE == 41
  std::vector<int> a{1, 2, 3}; int s = 0; for (int x : a | std::views::filter([](int i) { return i & 1; })) s += x; CHECK(s == 4); std::ranges::sort(a, std::greater<>{}); CHECK(a[0] == 3); std::erase(a, 2); CHECK(a.size() == 2); a.insert(a.begin(), 5); a.resize(10); a.shrink_to_fit(); a.erase(a.begin()); CHECK(std::find_if(a.begin(), a.end(), [](int x) { return x == 1; }) != a.end()); std::vector<bool> bv(70); bv[65] = true; CHECK(bv[65] && !bv[64]);
#elif MODE == 42
  struct A { int x; int f(int y) { return x + y; } }; A a{3}; auto p = &A::f; auto q = &A::x; CHECK((a.*p)(v) == 3 + v && a.*q == 3 && std::invoke(p, a, 1) == 4); int (*fp)(int) = [](int x) { return x + 1; }; CHECK(fp(2) == 3);
#elif MODE == 43
  double d = 1.5; d *= 2; CHECK((int)d == 3); std::chrono::duration<double> s(0.5); auto n = std::chrono::duration_cast<std::chrono::nanoseconds>(s); CHECK(n.count() == 500000000); double e = (double)(sizeof(int) + p0()); CHECK(e >= 4);
#elif MODE == 44
  struct P { int a, b; }; static std::atomic<P> p; static_assert(sizeof(P) == 8); p.store({1, 2}); P o = p.load(); CHECK(p.compare_exchange_strong(o, {2, 3})); struct Q { void* a; void* b; }; 
#elif MODE == 45
  std::vector<std::unique_ptr<std::vector<std::shared_ptr<Tok>>>> z; for (int i = 0; i < 3; i++) { z.emplace_back(new std::vector<std::shared_ptr<Tok>>); z.back()->push_back(std::make_shared<Tok>(i)); } std::swap(z[0], z[2]); CHECK(z[0]->front()->get() == 2); std::unique_ptr<Tok, void (*)(Tok*)> c(new Tok(1), [](Tok* t) { delete t; }); auto al = std::allocate_shared<Tok>(std::allocator<Tok>(), 4); std::shared_ptr<int> ali(al, (int*)&sh); auto sp = std::make_shared<int[]>(4); sp[2] = 1;
#elif MODE == 46
  static std::timed_mutex m; CHECK(m.try_lock_for(std::chrono::milliseconds(1))); m.unlock();
#elif MODE == 47
  CHECK(std::hash<int>{}(5) == 5); (void)std::hash<void*>{}(&sh); (void)std::hash<std::string>{}("abc"); 
#elif MODE == 48
  auto i = std::this_thread::get_id(); CHECK(i == std::this_thread::get_id()); static std::thread::id o; { std::thread t([] { o = std::this_thread::get_id(); }); CHECK(t.get_id() != i && t.joinable()); t.join(); } CHECK(o != i); CHECK(std::thread::hardware_concurrency() < 100000); static std::atomic<int> dn; std::thread([] { dn = 1; }).detach(); while (!dn) std::this_thread::yield();
#elif MODE == 49
  auto f = std::async(std::launch::deferred, [] { return 4; }); CHECK(f.get() == 4); std::packaged_task<int()> pt([] { return 3; }); auto g = pt.get_future(); pt(); CHECK(g.get() == 3);
#endif
  vk_cover("done");
}
