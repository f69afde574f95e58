// E05: lock-step exploration of every engine and its reference recurrence.
#include "ecommon.hpp"
static bool lock(Entry& e, AnyEngine& a, Ref& r, size_t steps, const std::string& what) {
    for(size_t i = 0; i < steps; ++i) {
        W x = a.next(), y = r.next(); ++g_trans;
        if(!r.cmp(x, y)) { fail("mismatch", fmt("%s: after %s output %zu is %llu, recurrence gives %llu", e.name.c_str(), what.c_str(), i, (unsigned long long)x, (unsigned long long)y)); return false; }
    }
    return true;
}
static void run(Entry& e) {
    ctx("%s", e.name.c_str());
    EP proto = e.make();
    size_t len = std::max<size_t>(4 * e.phase + 10, e.tiny ? 400 : 100) + (thorough() ? 20000 : 0);
    // default seed, published ranges
    { RP r = e.ref(); if(proto->min() != r->min() || proto->max() != r->max()) fail("range", fmt("min/max %llu %llu expected %llu %llu", (unsigned long long)proto->min(), (unsigned long long)proto->max(), (unsigned long long)r->min(), (unsigned long long)r->max()));
      EP a = e.make(); lock(e, *a, *r, std::max<size_t>(len, 3 * e.phase), "default construction"); ++g_traces; ++g_states; }
    std::vector<int64_t> vals;
    if(e.tiny) for(int v = -5; v < (thorough() ? 3000 : 600); ++v) vals.push_back(v);
    else { for(int v = -3; v < 40; ++v) vals.push_back(v); for(int b = 5; b < 64; ++b) for(int d = -1; d <= 1; ++d) vals.push_back((int64_t)((1ULL << b) + d)); }
    if(e.cost > 200) vals = {0, 1, 331, 12345, -1};
    std::set<std::string> seen;
    for(int64_t v : vals) {
        if(!std::is_signed<int>::value) continue;
        RP r = e.ref(); r->seed_val(v); if(!seen.insert(r->key()).second) continue;
        EP a = proto->ctor_val(v); ctx("%s seed %lld", e.name.c_str(), (long long)v);
        if(!lock(e, *a, *r, e.cost > 200 ? 2 * e.phase : len, fmt("seed(%lld)", (long long)v))) return; ++g_traces; ++g_states;
    }
    for(int k = 0; k < (e.cost > 200 ? 9 : thorough() ? 60 : 16); ++k) {
        Words w = wordset(k, 2 * e.phase + 1000); if(e.phase > 1000) w = wordset(k, 2 * e.phase);
        RP r = e.ref(); r->seed_seq([&](size_t n){ Words o; for(size_t i = 0; i < n; ++i) o.push_back(w[i % w.size()]); return o; });
        ScriptSeq s(w); EP a = proto->ctor_seq(s); ctx("%s words %d", e.name.c_str(), k);
        if(!lock(e, *a, *r, e.cost > 200 ? 2 * e.phase : len, fmt("seed words pattern %d", k))) return; ++g_traces; ++g_states;
        seen.insert(r->key());
    }
    // tiny engines: every state reachable from every word vector over a small alphabet, to closure
    if(e.tiny && proto->iter()) {
        EP probe = e.make(); Words big(4096, 3); size_t used = probe->seed_iter(big);
        unsigned alpha = used <= 1 ? (thorough() ? 65536 : 4096) : used == 2 ? (thorough() ? 1024 : 256) : used == 3 ? (thorough() ? 40 : 16) : used == 4 ? (thorough() ? 10 : 8) : 4;
        uint64_t tot = 1; for(size_t i = 0; i < used; ++i) tot *= alpha;
        for(uint64_t c = 0; c < tot; ++c) {
            Words w; uint64_t q = c; for(size_t i = 0; i < used; ++i) { w.push_back(q % alpha); q /= alpha; }
            RP r = e.ref(); size_t p = 0; r->seed_iter(w, p);
            std::string k = r->key(); if(!seen.insert(k).second) continue;
            ++g_states; EP a = e.make(); a->seed_iter(w); ctx("%s words vector %llu", e.name.c_str(), (unsigned long long)c);
            if(!lock(e, *a, *r, r->mem() + 2 * e.phase + 4, fmt("seed word vector %llu base %u", (unsigned long long)c, alpha))) return; ++g_traces;
        }
        count("state_closure_vectors", tot);
    }
    sample(fmt("%zu seeds, %zu outputs each, all equal to the recurrence", vals.size(), len));
}
MC_ENGINE_MAIN
