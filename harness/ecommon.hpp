#pragma once
#include "engines.hpp"
using namespace mc;
typedef unsigned long long ull; typedef long long ll;
inline Words wordset(int k, size_t n) { // deterministic seeding patterns
    Words w; uint64_t s = 0x9e3779b97f4a7c15ULL * (k + 1);
    for(size_t i = 0; i < n; ++i) { s ^= s << 13; s ^= s >> 7; s ^= s << 17;
        switch(k) { case 0: w.push_back(0); break; case 1: w.push_back(~0u); break; case 2: w.push_back(i == 0); break; case 3: w.push_back(i == n - 1); break;
          case 4: w.push_back(0x80000000u); break; case 5: w.push_back((uint32_t)i); break; case 6: w.push_back(0x7fffffff); break; default: w.push_back(uint32_t(s >> 16)); } }
    return w;
}
inline std::function<Words(size_t)> gen_of(const Words& w) { return [w](size_t n){ Words o; for(size_t i = 0; i < n; ++i) o.push_back(w[i % w.size()]); return o; }; }
// every position inside a block for blocks up to `all`, otherwise the positions around every edge
inline std::vector<size_t> positions(size_t phase, size_t all, size_t blocks = 2) {
    std::set<size_t> s; size_t n = blocks * phase + 2;
    if(phase <= all) for(size_t i = 0; i <= n; ++i) s.insert(i);
    else for(size_t b = 0; b <= blocks; ++b) for(long d = -2; d <= 2; ++d) for(size_t f = 0; f < 4; ++f) { long p = long(b * phase + f * phase / 4) + d; if(p >= 0 && p <= (long)n) s.insert(p); }
    return std::vector<size_t>(s.begin(), s.end());
}
// number of outputs after which two different states must have shown a difference
inline size_t horizon(Ref& r, size_t cap) { return std::min(r.mem() + 3, cap); }
inline bool same_future(AnyEngine& a, AnyEngine& b, size_t n, size_t* at = nullptr, W* x = nullptr, W* y = nullptr) {
    for(size_t i = 0; i < n; ++i) { W p = a.next(), q = b.next(); ++g_trans; if(p != q) { if(at) *at = i; if(x) *x = p; if(y) *y = q; return false; } }
    return true;
}
inline bool same_stream(AnyEngine& a, const std::vector<W>& out, size_t from, size_t n, size_t* at, W* x) {
    for(size_t i = 0; i < n; ++i) { W p = a.next(); ++g_trans; if(p != out[from + i]) { *at = i; *x = p; return false; } }
    return true;
}
#define MC_ENGINE_MAIN MC_MAIN({ init_engines(); for(auto& e : entries()) { Entry* p = &e; add(e.name, [p]{ ctx("%s", p->name.c_str()); run(*p); }); } })
