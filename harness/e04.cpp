// E04: every output in [min, max] (reals: [0,1)), published ranges equal the documented ones.
#include "ecommon.hpp"
static bool walk(Entry& e, AnyEngine& a, size_t n, const std::string& how) {
    for(size_t i = 0; i < n; ++i) { a.next(); ++g_trans; std::string why; if(!a.out_ok(why)) { fail("range", fmt("%s: after %s, draw %zu: %s", e.name.c_str(), how.c_str(), i, why.c_str())); return false; } }
    ++g_execs; ++g_states; return true;
}
static void run(Entry& e) {
    EP p = e.make(); RP r = e.ref();
    if(p->min() != r->min() || p->max() != r->max()) { fail("published", fmt("%s: publishes [%llu, %llu], documented [%llu, %llu]", e.name.c_str(), (ull)p->min(), (ull)p->max(), (ull)r->min(), (ull)r->max())); return; }
    size_t n = std::max<size_t>(3 * e.phase + 20, e.tiny ? 500 : 200) * (thorough() ? 20 : 1);
    { EP a = e.make(); if(!walk(e, *a, std::max<size_t>(n, 20000), "default seed")) return; }
    for(int64_t v = -40; v < (e.cost > 200 ? -35 : thorough() ? 3000 : 300); ++v) { EP a = p->ctor_val(v); ctx("%s seed %lld", e.name.c_str(), (long long)v); if(!walk(e, *a, n, fmt("seed(%lld)", (long long)v))) return; }
    if(e.cost <= 200) for(int b = 4; b < 64; ++b) for(int d = -2; d <= 2; ++d) { int64_t v = (int64_t)((1ULL << b) + d); EP a = p->ctor_val(v); ctx("%s seed %lld", e.name.c_str(), (long long)v); if(!walk(e, *a, n, fmt("seed(%lld)", (long long)v))) return; }
    size_t need = 3 * e.phase + 9;
    bool reject = e.name.find("ibits<") == 0;   // an all-zero or constant base never leaves the rejection loop of an adaptor
    if(!reject) for(int k = 0; k < 30; ++k) { Words w = wordset(k, need); ScriptSeq s(w); EP a = p->ctor_seq(s); ctx("%s words %d", e.name.c_str(), k); if(!walk(e, *a, n, fmt("seed words pattern %d", k))) return; }
    // extreme words: every vector over {0, 1, 2^31, 2^32-1} for the first positions, constant afterwards
    const uint32_t al[5] = {0, 1, 0x7fffffffu, 0x80000000u, 0xffffffffu};
    if(!reject && e.phase <= 700) for(int c = 0; c < 5 * 5 * 5 * 5 * 5; ++c) { int q = c; Words w; for(int i = 0; i < 4; ++i) { w.push_back(al[q % 5]); q /= 5; } size_t m = e.phase > 100 ? 12 : 3 * e.phase + 5; uint32_t tail = al[q % 5]; while(w.size() < m) w.push_back(tail);
        if(e.phase > 30 && c % 13) continue;
        ScriptSeq s(w); EP a = p->ctor_seq(s); ctx("%s extreme words %d", e.name.c_str(), c); if(!walk(e, *a, 2 * e.phase + 6, fmt("extreme seed words #%d", c))) return; }
    sample("all draws from all seedings inside the published range");
}
MC_ENGINE_MAIN
