// The word stream documented by E12: accepted outputs contribute their low bits, low-order first.
#pragma once
#include <cstdint>
#include <functional>
#include <vector>
typedef unsigned __int128 u128;
struct BitPack {
    int bits; u128 limit;   // bits taken from each output; outputs (offset from min) >= limit are rejected
    static int lg(u128 x) { int r = -1; while(x) { ++r; x >>= 1; } return r; }
    static BitPack of_range(u128 R) { // R = number of engine values
        BitPack b; int b0 = lg(R), d = lg(b0); u128 ex = R >> (b0 - d); int z = 0; if(ex) { while(!(ex >> z & 1)) ++z; b.bits = b0 - d + z; } else b.bits = b0; if(b.bits > b0) b.bits = b0;
        b.limit = (R >> b.bits) << b.bits; return b; }
    static BitPack of_real(int w) { BitPack b; b.bits = w; b.limit = u128(1) << w; return b; }
    // n words from next() (offsets); used = outputs consumed
    std::vector<uint32_t> words(size_t n, const std::function<uint64_t()>& next, size_t* used) const {
        std::vector<uint32_t> o; u128 acc = 0; int have = 0; size_t u = 0;
        while(o.size() < n) { uint64_t v = next(); ++u; if(v >= limit) continue; acc |= (u128)(bits >= 64 ? v : v & ((uint64_t(1) << bits) - 1)) << have; have += bits;
            while(have >= 32 && o.size() < n) { o.push_back((uint32_t)acc); acc >>= 32; have -= 32; } }
        if(used) *used = u; return o; }
};
