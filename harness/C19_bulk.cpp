//@ run quick bulk300 -DN=300 --insts 400 covers:done
//@ run thorough bulk2500 -DN=2500 --insts 400 covers:done
#include "bulk.h"
#include <memory>
#include <macoro/stop.h>
using namespace macoro; using Cb = optional_stop_callback;
// hundreds of callbacks; some deregistered before the request, one during it
static int n[2 * N]; 
int main() { { stop_source s; stop_token t = s.get_token(); auto c = std::make_unique<Cb[]>(2 * N); int other = pick("deregisters"); auto reg = [&](int i) { c[i].emplace(t, [i, &c, other] { n[i]++; if (i == other) c[(i + 1) % N].reset(); }); }; for (int i = 0; i < N; i++) reg(i); for (int i = 0; i < N; i += 2) c[i].reset(); for (int i = 0; i < N; i += 2) reg(i); for (int i = N; i < 2 * N; i++) reg(i); for (int i = N + 1; i < 2 * N; i += 3) c[i].reset();
    s.request_stop(); int v = (other + 1) % N; for (int i = 0; i < 2 * N; i++) if (i < N || (i - N) % 3 != 1) { if (i == v) CHECKM(n[i] <= 1, "runs at most once"); else CHECKM(n[i] == 1, "each callback runs exactly once"); } else CHECKM(n[i] == 0, "a deregistered callback runs"); s.request_stop(); for (int x : n) CHECK(x <= 1); } vk_cover("done"); }
