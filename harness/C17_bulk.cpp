//@ run quick bulk300 -DN=300 -DB=256 --insts 400 covers:closed
//@ run quick bulk300-4 -DN=300 -DB=4 --insts 400 covers:closed
//@ run thorough bulk5000 -DN=5000 -DB=4096 --insts 400 covers:closed
#include "bulk.h"
#include <macoro/optional.h>
#include <macoro/channel.h>
using namespace macoro; using Tx = mpsc::channel_sender<Mov>; using Rx = mpsc::channel_receiver<Mov>;
// more items than a byte counts, from two senders, through a large and a small channel
static int sent[2], got[2]; static bool eof, closed, closing; static int left = 2;
Fire tx(Tx t, int x, int k) { for (int i = 0; i < N; i++) { { auto w = co_await t.push(); w = Mov(x + (i << 1) + k); } sent[k]++; CHECKM(sent[0] + sent[1] <= got[0] + got[1] + B + 2, "not beyond the capacity"); } if (!--left) { closing = true; co_await t.close(); closed = true; } }
Fire rx(Rx& r, int x) { try { for (;;) { auto w = co_await r.pop(); int v = w->get() - x, k = v & 1; CHECKM(v >> 1 == got[k], "each sender's items once, in order"); got[k]++; } } catch (channel_closed_exception&) { CHECKM(got[0] == N && got[1] == N && closing, "closed after everything has been received"); eof = true; vk_cover("closed"); } }
int main() { { auto [t, r] = mpsc::make_channel<Mov>(B); int x = 7000; if (vk_coin("receiver first")) { rx(r, x); tx(t, x, 0); tx(t, x, 1); } else { tx(t, x, 0); tx(t, x, 1); CHECK(sent[0] + sent[1] == (B < 2 * N ? B : 2 * N)); rx(r, x); } CHECKM(eof && closed && sent[0] == N && sent[1] == N, "nobody stays suspended"); } CHECK(Tok::live == 0); }
