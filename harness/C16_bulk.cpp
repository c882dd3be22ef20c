//@ run quick bulk300 -DN=300 -DB=256 --insts 400 covers:closed
//@ run quick bulk300-4 -DN=300 -DB=4 --insts 400 covers:closed
//@ run thorough bulk5000 -DN=5000 -DB=4096 --insts 400 covers:closed
#include "bulk.h"
#include <macoro/optional.h>
#include <macoro/channel_spsc.h>
using namespace macoro; using Tx = spsc::channel_sender<Mov>; using Rx = spsc::channel_receiver<Mov>;
// more items than a byte counts, through a large and a small channel; the receiver starts after any number of them
static int sent, got; static bool eof, closed, closing;
Fire tx(Tx& t, int x) { for (int i = 0; i < N; i++) { { auto w = co_await t.push(); w = Mov(x + i); } sent++; CHECKM(sent <= got + B + 1, "not beyond the capacity"); } closing = true; co_await t.close(); closed = true; }
Fire rx(Rx& r, int x) { try { for (;;) { auto w = co_await r.pop(); CHECKM(w->get() == x + got, "each item once, in order"); got++; } } catch (channel_closed_exception&) { CHECKM(got == N && closing, "closed after everything has been received"); eof = true; vk_cover("closed"); } }
int main() { { auto [t, r] = spsc::make_channel<Mov>(B); int x = 7000; if (vk_coin("receiver first")) { rx(r, x); tx(t, x); } else { tx(t, x); CHECK(sent == (B < N ? B : N)); rx(r, x); } CHECKM(eof && closed && sent == N, "neither side stays suspended"); } CHECK(Tok::live == 0); }
