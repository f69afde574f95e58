// E03: operator== against the reference state, over pairs of states reached in different ways; copies.
#include "ecommon.hpp"
struct S { EP e; std::string key; std::string how; };
static bool pair(Entry& e, const S& a, const S& b) {
    bool want = a.key == b.key; ++g_execs;
    ctx("%s: compare [%s] with [%s]", e.name.c_str(), a.how.c_str(), b.how.c_str());
    bool eq = a.e->eq(*b.e), ne = a.e->ne(*b.e);
    if(eq == ne) { fail("not-negation", fmt("%s: == and != both %d for [%s] and [%s]", e.name.c_str(), eq, a.how.c_str(), b.how.c_str())); return false; }
    if(eq != want) { fail(want ? "unequal-same-future" : "equal-different-future", fmt("%s: [%s] and [%s] compare %s but their states are %s", e.name.c_str(), a.how.c_str(), b.how.c_str(), eq ? "equal" : "unequal", want ? "the same" : "different")); return false; }
    return true;
}
static void copies(Entry& e) {
    // copy construction and assignment at positions; the original is then used, the copy compared with a recorded future
    RP r = e.ref(); size_t h = std::min<size_t>(horizon(*r, 3000), e.phase > 1000 ? 50 : 3000);
    EP w = e.make(); size_t at = 0; std::vector<size_t> pos = positions(e.phase, 64, 1);
    for(size_t p : pos) { while(at < p) { w->next(); ++at; } ++g_states;
        EP c = w->clone(), d = e.make()->ctor_val(77); d->next(); d->assign(*w); EP keep = w->clone();
        std::vector<W> f; { EP x = w->clone(); for(size_t i = 0; i < h + 5; ++i) f.push_back(x->next()); }
        for(int i = 0; i < 5; ++i) { W v = w->next(); if(v != f[i]) { fail("copy-affects", e.name + ": using a copy changed the original"); return; } } at += 5;
        size_t k; W x; ctx("%s copies at %zu", e.name.c_str(), p);
        if(!c->eq(*keep) || !d->eq(*keep)) { fail("copy-unequal", fmt("%s: copy after %zu draws is not equal to its source", e.name.c_str(), p)); return; }
        if(!same_stream(*c, f, 0, h, &k, &x)) { fail("copy-future", fmt("%s: copy constructed after %zu draws differs at output %zu", e.name.c_str(), p, k)); return; }
        if(!same_stream(*d, f, 0, h, &k, &x)) { fail("assign-future", fmt("%s: copy assigned after %zu draws differs at output %zu", e.name.c_str(), p, k)); return; }
        d->assign(*d); g_execs += 2; }
}
static void run(Entry& e) {
    copies(e); if(st().nfail) return;
    EP probe = e.make(); size_t used = 0; bool it = probe->iter();
    if(it) { Words big(200000, 3); used = probe->seed_iter(big); }
    if(e.tiny) {
        // states from every small seed and word vector, walked to every phase: all pairs
        std::vector<S> v; std::map<std::string,int> reps;
        auto put = [&](EP a, RP r, const std::string& how, size_t steps) {
            for(size_t i = 0; i <= steps; ++i) { std::string k = r->key(); if(reps[k] < 4 && v.size() < (thorough() ? 4000u : 1500u)) { ++reps[k]; v.push_back({a->clone(), k, fmt("%s + %zu draws", how.c_str(), i)}); } a->next(); r->next(); } };
        for(int s = 0; s < 24; ++s) { EP a = probe->ctor_val(s); RP r = e.ref(); r->seed_val(s); put(std::move(a), std::move(r), fmt("seed %d", s), 2 * e.phase + 4); }
        if(it) { unsigned alpha = used <= 1 ? 300 : used == 2 ? 16 : used == 3 ? 7 : used == 4 ? 5 : 3; uint64_t tot = 1; for(size_t i = 0; i < used; ++i) tot *= alpha;
            uint64_t stp = std::max<uint64_t>(1, tot / 300);
            for(uint64_t c = 0; c < tot; c += stp) { Words w; uint64_t q = c; for(size_t i = 0; i < used; ++i) { w.push_back(q % alpha); q /= alpha; }
                RP r = e.ref(); size_t p = 0; r->seed_iter(w, p); EP a = e.make(); a->seed_iter(w); put(std::move(a), std::move(r), fmt("words #%llu", (ull)c), e.phase + 1); } }
        // the same logical state reached in another block phase: feed the next outputs back as seed words where that is the state
        for(size_t i = 0; i < v.size(); ++i) for(size_t j = i; j < v.size(); ++j) if(!pair(e, v[i], v[j])) return;
        g_states += v.size(); count("pairs", double(v.size()) * v.size() / 2);
        sample(fmt("%zu states, all pairs compared", v.size()));
        return;
    }
    // big engines: single-bit changes of the seeding words, against the reference state, before and after draws
    std::vector<S> v; RP r0 = e.ref();
    if(it && e.phase <= 30000) {
        Words base = wordset(9, used); std::vector<size_t> ix; { std::set<size_t> s; for(size_t q = 0; q < 6 && q < used; ++q) { s.insert(q); s.insert(used - 1 - q); s.insert(q * used / 6); } ix.assign(s.begin(), s.end()); }
        auto mk = [&](const Words& w, const std::string& how, size_t steps) { RP r = e.ref(); size_t p = 0; r->seed_iter(w, p); EP a = e.make(); a->seed_iter(w); for(size_t i = 0; i < steps; ++i) { a->next(); r->next(); } v.push_back({std::move(a), r->key(), how + fmt(" + %zu draws", steps)}); };
        std::vector<size_t> steps{0, 1, e.phase / 2, e.phase, e.phase + 1};
        for(size_t s : steps) {
            v.clear(); mk(base, "base words", s); mk(base, "base words again", s);
            for(size_t i : ix) for(int b = 0; b < 32; b += (e.phase > 1000 ? 31 : e.phase > 100 ? 7 : 1)) { Words w = base; w[i] ^= 1u << b; mk(w, fmt("word %zu bit %d flipped", i, b), s);
                if(v.size() > 1) { if(!pair(e, v[0], v.back()) || !pair(e, v.back(), v[0])) return; if(v.size() > 3) v.pop_back(); } ++g_states; }
        }
    }
    // positions of one stream and of neighbouring seeds
    v.clear(); std::vector<size_t> pos = positions(e.phase, e.phase > 300 ? 0 : 64, 2); if(e.phase > 5000) pos = {0, 1, e.phase - 1, e.phase, e.phase + 1};
    for(int s : {1, 2, 1}) { EP a = probe->ctor_val(s); RP r = e.ref(); r->seed_val(s); size_t at = 0; for(size_t p : pos) { while(at < p) { a->next(); r->next(); ++at; } v.push_back({a->clone(), r->key(), fmt("seed %d + %zu draws", s, p)}); } }
    for(size_t i = 0; i < v.size(); ++i) for(size_t j = i; j < v.size(); ++j) if(!pair(e, v[i], v[j])) return;
    g_states += v.size(); count("pairs", double(v.size()) * v.size() / 2);
    sample(fmt("%zu positions of two streams, all pairs compared", v.size()));
}
MC_ENGINE_MAIN
