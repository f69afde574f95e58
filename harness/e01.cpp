// E01: discard(z) against stepping, for every position in a block and every z around every boundary.
#include "ecommon.hpp"
static bool fast_jump(const Entry& e) { return e.name.find("lcg") == 0 || e.name.find("minstd") == 0 || e.name == "rand48" || e.name == "ecuyer1988" || e.name.find("additive") == 0; }
static void check(Entry& e, AnyEngine& start, const std::string& what, size_t nblocks) {
    RP r = e.ref(); size_t h = horizon(*r, e.phase > 5000 ? 400 : 4000);
    std::vector<size_t> pos = positions(e.phase, 700, nblocks);
    std::vector<size_t> zs; { std::set<size_t> s; for(size_t z = 0; z < 12; ++z) s.insert(z);
        if(e.phase <= 64) for(size_t z = 0; z <= 4 * e.phase + 3; ++z) s.insert(z);
        for(size_t b = 1; b <= 3; ++b) for(long d = -3; d <= 3; ++d) for(int f = 0; f < 4; ++f) { long z = long(b * e.phase) - long(f * e.phase / 4) + d; if(z >= 0) s.insert(z); }
        if(thorough() && e.phase <= 700) for(size_t z = 0; z <= 2 * e.phase + 3; ++z) s.insert(z);
        zs.assign(s.begin(), s.end()); }
    if(e.phase > 300) h = std::min<size_t>(h, thorough() ? 2000 : e.phase + 5);
    size_t P = pos.back(), Z = zs.back() + e.phase + 3;
    std::vector<W> out; { EP w = start.clone(); for(size_t i = 0; i < P + Z + Z + h + 1; ++i) out.push_back(w->next()); }
    EP walk = start.clone(); size_t at = 0, pi = 0;
    // in a state of phase p, also every skip that ends next to a block boundary
    for(size_t p : pos) {
        while(at < p) { walk->next(); ++at; }
        ++g_states;
        std::vector<size_t> zz = zs; size_t rel = p % e.phase;
        for(size_t b = 1; b <= 2; ++b) for(long d = -1; d <= 1; ++d) zz.push_back(b * e.phase - rel + d);
        size_t step = e.phase > 300 && !thorough() ? 5 : 1;      // large blocks: every fifth z per position, shifted by position, edges always
        for(size_t zi = 0; zi < zz.size(); ++zi) {
            if(step > 1 && zi < zs.size() && (zi + p) % step) continue;
            size_t z = zz[zi]; ctx("%s %s: position %zu discard(%zu)", e.name.c_str(), what.c_str(), p, z);
            EP c = walk->clone(); c->discard(z); ++g_execs; size_t k; W x;
            size_t hh = e.phase > 300 ? (zi % 3 == 0 ? h : 40) : h;
            if(!same_stream(*c, out, p + z, hh, &k, &x)) {
                fail("discard", fmt("%s: after %s and %zu draws, discard(%zu) then output %zu is %llu, stepping gives %llu", e.name.c_str(), what.c_str(), p, z, k, (ull)x, (ull)out[p+z+k])); return; }
        }
        // two skips equal one
        if(pi++ % (e.phase > 64 ? 97 : 1) == 0) for(size_t a : {size_t(0), size_t(1), e.phase - 1, e.phase, e.phase + 1}) for(size_t b : {size_t(0), size_t(1), size_t(2), e.phase}) {
            EP c = walk->clone(); c->discard(a); c->discard(b); ++g_execs; size_t k; W x;
            if(!same_stream(*c, out, p + a + b, h, &k, &x)) { fail("discard2", fmt("%s: after %s and %zu draws, discard(%zu), discard(%zu) differs from stepping at output %zu", e.name.c_str(), what.c_str(), p, a, b, k)); return; }
        }
    }
}
static void big_jumps(Entry& e) {
    // cycle of a small engine: any z, however large, is checked against z mod period
    for(int sd = 0; sd < 40; ++sd) {
        EP a = e.make()->ctor_val(sd); RP r = e.ref(); r->seed_val(sd);
        if(e.tiny) {
            std::map<std::string, size_t> first; std::vector<W> out; size_t mu = 0, lam = 0;
            for(size_t i = 0; ; ++i) { auto k = r->key(); auto it = first.find(k); if(it != first.end()) { mu = it->second; lam = i - mu; break; } first[k] = i; out.push_back(r->next()); }
            auto idx = [&](u128 z) { return z < mu ? (size_t)z : mu + (size_t)((z - mu) % lam); };
            std::vector<uint64_t> zs; for(uint64_t z = 0; z < 4 * (mu + lam) + 70; ++z) zs.push_back(z);
            for(int b = 3; b < 64; ++b) for(int d = -2; d <= 2; ++d) zs.push_back((1ULL << b) + d);
            for(int d = 0; d < 40; ++d) zs.push_back(~0ULL - d);
            for(uint64_t z : zs) { EP c = a->clone(); ctx("%s seed %d discard(%llu)", e.name.c_str(), sd, (ull)z); c->discard(z); ++g_execs;
                for(int j = 0; j < 3; ++j) { W x = c->next(); ++g_trans; W y = out[idx((u128)z + j)];
                    if(x != y) { fail("bigjump", fmt("%s seed %d: discard(%llu) then output %d is %llu, recurrence gives %llu", e.name.c_str(), sd, (ull)z, j, (ull)x, (ull)y)); return; } } }
            ++g_states;
        } else { // doubling chain, anchored by stepping: D(2^k) = D(2^(k-1)) twice; and sums with odd parts
            for(int k = 1; k < 64; ++k) for(uint64_t d : {0ULL, 1ULL, 3ULL}) {
                uint64_t h = 1ULL << (k - 1); EP c = a->clone(), d2 = a->clone(); c->discard(2 * h + d); d2->discard(h); d2->discard(h); for(uint64_t j = 0; j < d; ++j) d2->next(); g_execs += 2; ++g_states;
                ctx("%s seed %d discard(%llu)", e.name.c_str(), sd, (ull)(2 * h + d));
                if(!same_future(*c, *d2, 4)) { fail("doubling", fmt("%s seed %d: discard(2^%d + %llu) differs from two discard(2^%d) and %llu draws", e.name.c_str(), sd, k, (ull)d, k - 1, (ull)d)); return; }
            }
            EP c = a->clone(), d2 = a->clone(); c->discard(~0ULL); d2->discard(1ULL << 63); d2->discard((1ULL << 63) - 1); if(!same_future(*c, *d2, 4)) { fail("doubling", e.name + ": discard(2^64-1)"); return; }
        }
    }
}
#ifdef E01_JUMP
// compiled with a small BOOST_RANDOM_MERSENNE_TWISTER_DISCARD_THRESHOLD: nearly every skip uses jump-ahead
static void run(Entry& e) {
    if(e.name.find("mt") == std::string::npos) return;
    if(e.name.find("mt<") == 0 || (e.name.find("mt") != std::string::npos && e.tiny)) {
        EP a = e.make(); check(e, *a, "default seed", 3);
        if(e.tiny) for(int s = 0; s < 25; ++s) { EP b = e.make()->ctor_val(s); check(e, *b, fmt("seed %d", s), 2); if(st().nfail) return; }
        for(int k = 2; k < 8; ++k) { Words w = wordset(k, 600); ScriptSeq q(w); EP b = e.make()->ctor_seq(q); check(e, *b, fmt("words %d", k), 1); if(st().nfail) return; }
        if(e.name.find("mt<") != 0) return;
        // doubling chain to 2^63
        for(size_t p = 0; p < (e.tiny ? 3 * e.phase : 6); ++p) for(int k = 2; k < 63; ++k) {
            EP c = a->clone(); for(size_t i = 0; i < p; ++i) c->next(); EP d = c->clone(); ctx("%s discard(2^%d) from %zu", e.name.c_str(), k, p);
            c->discard(1ULL << k); d->discard(1ULL << (k-1)); d->discard(1ULL << (k-1)); g_execs += 2; ++g_states;
            if(!same_future(*c, *d, 2 * e.phase)) { fail("doubling", fmt("%s: discard(2^%d) from position %zu differs from two discard(2^%d)", e.name.c_str(), k, p, k - 1)); return; }
        }
    } else if(e.name == "mt19937" || e.name == "mt11213b" || e.name == "mt19937_64") {
        EP a = e.make(); size_t n = e.phase; std::vector<size_t> ps{0, 1, n - 1, n, n + 1, n / 2};
        std::vector<size_t> zs{4, n - 1, n, n + 1, 2 * n + 3, 20011};
        if(thorough()) { for(size_t d = 5; d < 60; ++d) { ps.push_back(d * n / 60); zs.push_back(d * 37 + 5); } }
        std::vector<W> out; { EP w = a->clone(); for(size_t i = 0; i < 40000; ++i) out.push_back(w->next()); }
        size_t i = 0; for(size_t p : ps) for(size_t z : zs) { if(!thorough() && i++ % 3) continue;
            EP c = a->clone(); for(size_t j = 0; j < p; ++j) c->next(); ctx("%s jump %zu from %zu", e.name.c_str(), z, p); c->discard(z); ++g_execs; ++g_states; size_t k; W x;
            if(!same_stream(*c, out, p + z, 2 * n, &k, &x)) { fail("jump", fmt("%s: jump by %zu from position %zu: output %zu differs from stepping", e.name.c_str(), z, p, k)); return; } }
    }
}
#else
static void run(Entry& e) {
    EP a = e.make(); check(e, *a, "default seed", 2);
    if(st().nfail) return;
    if(e.phase <= 100) for(int s = 0; s < (e.tiny ? 30 : 4); ++s) { EP b = e.make()->ctor_val(s); check(e, *b, fmt("seed %d", s), 1); if(st().nfail) return; }
    if(e.phase <= 5000) for(int k = 2; k < (e.phase <= 100 ? 12 : 4); ++k) { Words w = wordset(k == 3 ? 9 : k, 8 * e.phase + 9); ScriptSeq q(w); EP b = e.make()->ctor_seq(q); check(e, *b, fmt("words %d", k), 1); if(st().nfail) return; }
    if(fast_jump(e)) big_jumps(e);
    if(e.name == "mt19937" || e.name == "mt19937_64" || e.name == "mt11213b") { // the real threshold
        for(uint64_t z : {9999999ULL, 10000000ULL, 10000001ULL, 10000625ULL}) { EP c = a->clone(), d = a->clone(); for(int i = 0; i < 5; ++i) { c->next(); d->next(); }
            ctx("%s discard(%llu)", e.name.c_str(), (ull)z); c->discard(z); for(uint64_t j = 0; j < z; ++j) d->next(); ++g_execs;
            if(!same_future(*c, *d, 2 * e.phase)) { fail("jump", fmt("%s: discard(%llu) from position 5 differs from stepping", e.name.c_str(), (ull)z)); return; } }
    }
    sample("all positions x skips around block edges equal stepping");
}
#endif
MC_ENGINE_MAIN
