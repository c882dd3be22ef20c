// Large numbers of one thing: counters, indexes and containers past every small width (300 > 2^8; thorough: 66000 > 2^16).
#pragma once
#include "hx.h"
#include <cassert>
#include <vector>
static std::size_t start() { return vk_coin("wraps") ? (std::size_t)-140 : 5; }
static int pick(const char* n) { static const int at[] = {0, 44, 127 % N, 255 % N, 256 < N ? 256 : N / 2, N - 1}; return at[vk_choose(n, 6)]; }
