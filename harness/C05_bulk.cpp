//@ run quick bulk300 -DN=300 --insts 400 covers:done
//@ run thorough bulk5000 -DN=5000 --insts 400 covers:done
#include "bulk.h"
#include <macoro/when_all.h>
#include <macoro/task.h>
using namespace macoro;
// hundreds of children: one of them ends last, another one throws
static Gate last; static int ended, resumed;
task<int> child(int i, int l, int t, int x) { if (i == l) co_await last; ended++; if (i == t) throw Ex(x); co_return x + i; }
Fire par(int l, int t, int x) { { std::vector<task<int>> v; for (int i = 0; i < N; i++) v.push_back(child(i, l, t, x)); auto r = co_await when_all_ready(std::move(v)); resumed++; CHECKM(ended == N, "resumed after every child"); CHECK((int)r.size() == N); int i = 0; for (auto& c : r) { if (i == t) { try { c.result(); vk_fail("the child's exception is lost"); } catch (Ex& e) { CHECK(e.v() == x); } } else CHECKM(c.result() == (int)((unsigned)x + i), "the i-th entry holds the i-th child's result"); i++; } } }
int main() { int l = pick("last"), t = N / 2, x = 77; par(l, t, x); CHECKM(!resumed && ended == N - 1, "not resumed before every child has ended"); last.fire(); CHECKM(resumed == 1, "resumed once"); CHECK(Tok::live == 0); vk_cover("done"); }
