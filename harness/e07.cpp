// E07: seeding from a value: value x arithmetic type x prior history, against the documented procedure.
#include "ecommon.hpp"
static const char* KN[] = {"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float", "double", "long double"};
static bool same_ref(AnyEngine& a, Ref& r, size_t n, size_t* at, W* x, W* y) {
    for(size_t i = 0; i < n; ++i) { W p = a.next(), q = r.next(); ++g_trans; if(!r.cmp(p, q)) { *at = i; *x = p; *y = q; return false; } }
    return true;
}
static void run(Entry& e) {
    EP proto = e.make(); RP r0 = e.ref(); bool big = e.phase > 1000, heavy = e.cost > 200;
    size_t h = big ? 40 : std::min<size_t>(horizon(*r0, 700), 700); size_t at; W x, y;
    // histories an engine may have before it is seeded again
    std::vector<EP> hist; std::vector<std::string> hn;
    auto addh = [&](EP p, const std::string& n) { hist.push_back(std::move(p)); hn.push_back(n); };
    for(size_t d : {size_t(0), size_t(1), e.phase / 2 + 1, e.phase, e.phase + 1}) { EP t = e.make()->ctor_val(77); for(size_t i = 0; i < d; ++i) t->next(); addh(std::move(t), fmt("%zu draws", d)); }
    { EP t = e.make(); t->discard(e.phase * 2 + 1); addh(std::move(t), "skip"); }
    { std::stringstream s; hist[1]->write(s); EP t = e.make(); t->read(s); addh(std::move(t), "restore"); }
    if(!heavy && e.name.find("ibits<") != 0) { ScriptSeq q(wordset(9, 64)); EP t = e.make()->ctor_seq(q); t->next(); addh(std::move(t), "word seeding"); }
    // default construction == seed() == documented default
    {   RP r = e.ref(); r->seed_default(); EP a = e.make(); ctx("%s default", e.name.c_str());
        if(!same_ref(*a, *r, h, &at, &x, &y)) { fail("default", fmt("%s: default construction: output %zu is %llu, documented default gives %llu", e.name.c_str(), at, (ull)x, (ull)y)); return; }
        for(size_t k = 0; k < hist.size(); ++k) { EP b = hist[k]->clone(); b->seed(); EP c = e.make(); ++g_execs;
            if(!b->eq(*c) || !same_future(*b, *c, h, &at, &x, &y)) { fail("seed()", fmt("%s: seed() after %s differs from default construction", e.name.c_str(), hn[k].c_str())); return; } }
    }
    std::vector<int64_t> vals;
    if(e.tiny) { for(int v = -300; v < (thorough() ? 70000 : 700); ++v) vals.push_back(v); for(int d = -2; d <= 2; ++d) for(int b : {15, 16, 31, 32, 48, 62}) { vals.push_back((1LL << b) + d); vals.push_back(-(1LL << b) + d); } }
    else { for(int v = -20; v < (thorough() ? 2000 : 40); ++v) vals.push_back(v); for(int b = 5; b < 63; ++b) for(int d = -1; d <= 1; ++d) { vals.push_back((int64_t)((1ULL << b) + d)); vals.push_back(-(int64_t)((1ULL << b) + d)); } for(int d = 0; d < 3; ++d) { vals.push_back(INT64_MIN + d); vals.push_back(INT64_MAX - d); }
        for(int64_t m : {2147483647LL, 2147483563LL, 2147483399LL, 2305843009213693951LL, 19780503LL, 13LL}) for(int d = -1; d <= 1; ++d) { vals.push_back(m + d); vals.push_back(2 * m + d); vals.push_back(-m + d); } }
    if(heavy) vals = {0, 1, 2, 331, 12345, -1, 2147483647, 2147483648LL, 4294967295LL, 4294967296LL, 65536, 19780503};
    size_t n = 0;
    for(int64_t v : vals) {
        RP r = e.ref(); r->seed_val(v); ++n; ++g_states; ++g_traces; ctx("%s value %lld", e.name.c_str(), (ll)v);
        EP c = proto->ctor_val(v); EP cc = c->clone();
        if(!same_ref(*cc, *r, h, &at, &x, &y)) { fail("value", fmt("%s: seeded with %lld: output %zu is %llu, documented seeding gives %llu", e.name.c_str(), (ll)v, at, (ull)x, (ull)y)); return; }
        { W a = c->clone()->next(); (void)a; }
        for(int k = 0; k < K_COUNT; ++k) if(kind_holds(k, v) && !(k >= K_FLOAT && proto->seed_as(v) != v)) {
            EP d = proto->ctor_kind(k, v); ++g_execs;
            if(!d->eq(*c)) { fail("kind", fmt("%s: constructing from %lld as %s differs from constructing from the seed type", e.name.c_str(), (ll)v, KN[k])); return; }
            EP b = hist[(n + k) % hist.size()]->clone(); b->seed_kind(k, v); EP c2 = c->clone(); ++g_execs;
            if(!b->eq(*c)) { fail("reseed", fmt("%s: seed(%lld as %s) after %s differs from construction", e.name.c_str(), (ll)v, KN[k], hn[(n + k) % hist.size()].c_str())); return; }
            if((k == K_I32 || n % 8 == 0) && !same_future(*b, *c2, std::min<size_t>(h, 60), &at, &x, &y)) { fail("reseed-future", fmt("%s: seed(%lld as %s) after %s: output %zu is %llu, a fresh engine gives %llu", e.name.c_str(), (ll)v, KN[k], hn[(n + k) % hist.size()].c_str(), at, (ull)x, (ull)y)); return; }
        }
        // every history with the engine's own seed type
        if(!heavy && (n % (e.tiny ? 7 : 3) == 0 || v == 0 || v == 1)) for(size_t k = 0; k < hist.size(); ++k) {
            EP b = hist[k]->clone(); b->seed_val(v); EP c2 = c->clone(); ++g_execs;
            if(!b->eq(*c) || !same_future(*b, *c2, h, &at, &x, &y)) { fail("history", fmt("%s: seed(%lld) after %s differs from a fresh engine at output %zu", e.name.c_str(), (ll)v, hn[k].c_str(), at)); return; }
        }
        if(heavy) { for(size_t k = 0; k < hist.size(); ++k) { EP b = hist[k]->clone(); b->seed_val(v); if(!b->eq(*c)) { fail("history", fmt("%s: seed(%lld) after %s differs from a fresh engine", e.name.c_str(), (ll)v, hn[k].c_str())); return; } } }
    }
    sample(fmt("%zu values x arithmetic types x %zu histories", vals.size(), hist.size()));
}
MC_ENGINE_MAIN
