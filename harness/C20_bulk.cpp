//@ run quick bulk300 -DN=300 --insts 400 covers:done
//@ run thorough bulk66000 -DN=66000 --insts 400 covers:done
#include "bulk.h"
#include <memory>
#include <macoro/stop.h>
using namespace macoro;
// many users of one state
int main() { { auto s = std::make_unique<stop_source[]>(N); auto t = std::make_unique<stop_token[]>(N); bool req = vk_coin("request"); for (int i = 1; i < N; i++) s[i] = s[0]; for (int i = 0; i < N; i++) t[i] = i ? t[i - 1] : s[0].get_token(); CHECK(!t[N - 1].stop_requested() && t[N - 1].stop_possible() && s[N - 1].stop_possible());
    for (int i = 0; i < N - 1; i++) { s[i] = s[N - 1]; } if (req) { s[N / 2].request_stop(); CHECK(t[N - 1].stop_requested() && s[0].stop_requested()); } bool first = vk_coin("sources first"); if (!first) { for (int i = 0; i < N - 1; i++) t[i] = stop_token(); CHECK(t[N - 1].stop_possible()); }
    for (int i = 0; i < N; i++) { CHECKM(t[N - 1].stop_possible() && t[N - 1].stop_requested() == req, "a token can be stopped while a source exists"); stop_source gone(std::move(s[i])); if (i == N - 2) CHECK(s[N - 1].stop_possible() && t[N - 1].stop_possible()); }
    CHECKM(t[N - 1].stop_possible() == req && t[N - 1].stop_requested() == req, "without a source only a request made before remains"); if (first) for (int i = 0; i < N - 1; i++) { t[i] = stop_token(); CHECK(t[N - 1].stop_requested() == req); } } CHECKM(vk_liveheap() == 0, "the state is freed with its last user"); vk_cover("done"); }
