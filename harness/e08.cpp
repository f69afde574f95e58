// E08: seeding from words: patterns and all small vectors x histories, exact consumption, exhaustion at every length.
#include "ecommon.hpp"
#include <random>
static bool same_ref(AnyEngine& a, Ref& r, size_t n, size_t* at, W* x, W* y) {
    for(size_t i = 0; i < n; ++i) { W p = a.next(), q = r.next(); ++g_trans; if(!r.cmp(p, q)) { *at = i; *x = p; *y = q; return false; } }
    return true;
}
static void run(Entry& e) {
    EP proto = e.make(); RP r0 = e.ref(); bool big = e.phase > 1000, heavy = e.cost > 200, ib = e.name.find("ibits<") == 0;
    size_t h = big ? 40 : std::min<size_t>(horizon(*r0, 700), 700); size_t at; W x, y;
    std::vector<EP> hist; std::vector<std::string> hn;
    auto addh = [&](EP p, const std::string& n) { hist.push_back(std::move(p)); hn.push_back(n); };
    for(size_t d : {size_t(0), size_t(1), e.phase / 2 + 1, e.phase, e.phase + 1}) { EP t = e.make()->ctor_val(77); for(size_t i = 0; i < d; ++i) t->next(); addh(std::move(t), fmt("%zu draws", d)); }
    { EP t = e.make(); t->discard(e.phase * 2 + 1); addh(std::move(t), "skip"); }
    { std::stringstream s; hist[1]->write(s); EP t = e.make(); t->read(s); addh(std::move(t), "restore"); }
    // ---- seed sequences
    size_t np = heavy ? 9 : thorough() ? 200 : 40;
    for(size_t k = 0; k < np; ++k) {
        if(ib && k < 7) continue;   // constant base words may make a rejecting adaptor wait for ever
        Words w = wordset(k, big ? 2 * e.phase : 2 * e.phase + 50); RP r = e.ref(); r->seed_seq(gen_of(w)); ctx("%s pattern %zu", e.name.c_str(), k);
        ScriptSeq s(w); EP a = proto->ctor_seq(s); EP a0 = a->clone(); ++g_states; ++g_traces;
        if(!same_ref(*a, *r, h, &at, &x, &y)) { fail("seq", fmt("%s: seed sequence with word pattern %zu: output %zu is %llu, documented seeding gives %llu", e.name.c_str(), k, at, (ull)x, (ull)y)); return; }
        for(size_t i = 0; i < hist.size(); ++i) { if(big && i != k % hist.size()) continue;
            EP b = hist[i]->clone(); b->seed_seq(s); ++g_execs; EP c = a0->clone();
            if(!b->eq(*a0) || !same_future(*b, *c, big ? 20 : std::min<size_t>(h, 100), &at, &x, &y)) { fail("seq-history", fmt("%s: seeding from words (pattern %zu) after %s differs from a fresh engine", e.name.c_str(), k, hn[i].c_str())); return; } }
    }
    // ---- the library's own seed_seq against the standard's
    std::vector<Words> inputs = {{}, {0}, {1}, {1, 2, 3}, {~0u, 0, 5, 7}, wordset(9, 20)};
    for(auto& in : inputs) {
        if(big && in.size() > 3) continue;
        boost::random::seed_seq bs(in.begin(), in.end()); std::seed_seq ss(in.begin(), in.end()); ctx("%s seed_seq of %zu words", e.name.c_str(), in.size());
        RP r = e.ref(); r->seed_seq([&](size_t n){ Words o(n); if(n) ss.generate(o.begin(), o.end()); return o; });
        EP a = e.make(); a->next(); a->seed_bseq(bs); ++g_execs; ++g_states; ++g_traces;
        if(!same_ref(*a, *r, std::min<size_t>(h, 120), &at, &x, &y)) { fail("seed_seq", fmt("%s: seed(seed_seq of %zu words): output %zu is %llu, expected %llu", e.name.c_str(), in.size(), at, (ull)x, (ull)y)); return; }
    }
    if(!proto->iter()) { sample("no iterator seeding"); return; }
    // ---- iterator pairs: exact consumption
    size_t need; { RP r = e.ref(); need = 0; Words w = wordset(9, 200000); r->seed_iter(w, need); }
    for(size_t k = 0; k < np; ++k) {
        if(ib && k < 7) continue;
        for(size_t extra : {size_t(0), size_t(1), size_t(5)}) {
            if(heavy && extra == 5) continue;
            Words w = wordset(k, need + extra); RP r = e.ref(); size_t p = 0; r->seed_iter(w, p); ctx("%s iterators over %zu words, pattern %zu", e.name.c_str(), w.size(), k);
            size_t used = 0; EP a = proto->ctor_iter(w, used); EP a0 = a->clone(); ++g_states; ++g_traces;
            if(used != need) { fail("consumed", fmt("%s: constructing from iterators over %zu words leaves the iterator at word %zu, documented count is %zu", e.name.c_str(), w.size(), used, need)); return; }
            if(!same_ref(*a, *r, h, &at, &x, &y)) { fail("iter", fmt("%s: iterator seeding with word pattern %zu: output %zu is %llu, documented seeding gives %llu", e.name.c_str(), k, at, (ull)x, (ull)y)); return; }
            for(size_t i = 0; i < hist.size(); ++i) { if(big && i != k % hist.size()) continue;
                EP b = hist[i]->clone(); size_t u = b->seed_iter(w); ++g_execs; EP c = a0->clone();
                if(u != need) { fail("consumed", fmt("%s: seed(first, last) leaves the iterator at word %zu, documented count is %zu", e.name.c_str(), u, need)); return; }
                if(!b->eq(*a0) || !same_future(*b, *c, big ? 20 : std::min<size_t>(h, 100), &at, &x, &y)) { fail("iter-history", fmt("%s: iterator seeding (pattern %zu) after %s differs from a fresh engine", e.name.c_str(), k, hn[i].c_str())); return; } }
        }
    }
    // ---- too few words: every length (edges and a spread for very long ones)
    std::set<size_t> lens; if(need <= 2000) for(size_t l = 0; l < need; ++l) lens.insert(l); else for(size_t l : {size_t(0), size_t(1), size_t(2), need / 3, need / 2 - 1, need / 2, need / 2 + 1, need - 2, need - 1}) lens.insert(l);
    for(size_t l : lens) for(int form = 0; form < 2; ++form) {
        Words w = wordset(9, l); bool thrown = false; ctx("%s only %zu of %zu words", e.name.c_str(), l, need); ++g_execs; ++g_states; EP b = hist[l % hist.size()]->clone();
        try { size_t u; if(form) proto->ctor_iter(w, u); else b->seed_iter(w); } catch(std::invalid_argument&) { thrown = true; }
        if(!thrown) { fail("short", fmt("%s: %zu words instead of %zu are accepted", e.name.c_str(), l, need)); return; }
        if(!form && (l % 16 == 0 || need < 40)) { Words ok = wordset(11, need); b->seed_iter(ok); EP c = e.make(); c->seed_iter(ok); ++g_execs;
            if(!b->eq(*c) || !same_future(*b, *c, 30, &at, &x, &y)) { fail("after-throw", fmt("%s: seeding after a rejected seeding with %zu words differs from a fresh engine", e.name.c_str(), l)); return; } }
    }
    // ---- all small word vectors (including all zero) for engines seeded by few words
    if(need <= 6 && !ib) {
        std::vector<uint32_t> al = {0, 1, 2, 3, 12, 13, 16, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x80000001u, 2147483646, 19, 31, 0xfffffffe, 65535, 65536};
        size_t A = need <= 2 ? al.size() : need == 3 ? 12 : need == 4 ? 8 : 4; uint64_t tot = 1; for(size_t i = 0; i < need; ++i) tot *= A;
        for(uint64_t c = 0; c < tot; ++c) {
            Words w; uint64_t q = c; for(size_t i = 0; i < need; ++i) { w.push_back(al[q % A]); q /= A; }
            RP r = e.ref(); size_t p = 0; r->seed_iter(w, p); EP a = hist[c % hist.size()]->clone(); a->seed_iter(w); ++g_states; ++g_traces; ctx("%s vector %llu", e.name.c_str(), (ull)c);
            if(!same_ref(*a, *r, std::min<size_t>(h, 40), &at, &x, &y)) { fail("vector", fmt("%s: iterator seeding with words %u %u ...: output %zu is %llu, documented seeding gives %llu", e.name.c_str(), w[0], need > 1 ? w[1] : 0, at, (ull)x, (ull)y)); return; }
        }
    }
    sample(fmt("needs %zu words; %zu patterns x %zu histories, %zu short lengths", need, np, hist.size(), lens.size()));
}
MC_ENGINE_MAIN
