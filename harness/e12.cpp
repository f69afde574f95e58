// E12 (engines): generate() of every engine: length x position, against the packed outputs of the reference.
#include "ecommon.hpp"
#include "bitpack.hpp"
static void run(Entry& e) {
    EP proto = e.make(); bool big = e.phase > 1000, heavy = e.cost > 200; bool raw = e.name == "rand48" || e.name == "splitmix64";
    std::vector<EP> starts; std::vector<RP> refs; std::vector<std::string> nm;
    { starts.push_back(e.make()); RP r = e.ref(); r->seed_default(); refs.push_back(std::move(r)); nm.push_back("default"); }
    for(int64_t v : {1, 5, 12345}) { if(heavy && v != 1) continue; starts.push_back(proto->ctor_val(v)); RP r = e.ref(); r->seed_val(v); refs.push_back(std::move(r)); nm.push_back(fmt("seed %d", (int)v)); }
    if(e.name.find("ibits<") != 0) { Words w = wordset(9, big ? 2 * e.phase : 2 * e.phase + 40); ScriptSeq s(w); starts.push_back(proto->ctor_seq(s)); RP r = e.ref(); r->seed_seq(gen_of(w)); refs.push_back(std::move(r)); nm.push_back("words"); }
    W mn = proto->min(); u128 R = e.bits ? u128(1) << e.bits : (u128)(W)(proto->max() - mn) + 1; if(R == 1) return; BitPack bp = e.bits ? BitPack::of_real(e.bits) : BitPack::of_range(R);
    for(size_t si = 0; si < starts.size(); ++si) {
        std::vector<size_t> pos = positions(e.phase, 20, 1); if(e.phase > 20 && pos.size() > 8 && !thorough()) { std::vector<size_t> p2; for(size_t i = 0; i < pos.size(); i += (pos.size() + 7) / 8) p2.push_back(pos[i]); pos = p2; }
        size_t at = 0; EP w = starts[si]->clone(); RP r = refs[si]->clone();
        for(size_t p : pos) {
            while(at < p) { w->next(); r->next(); ++at; }
            std::vector<size_t> lens; for(size_t n = 0; n <= (heavy ? 5u : 24u); ++n) lens.push_back(n); if(!heavy) for(size_t n : {size_t(31), size_t(33), size_t(64), size_t(100), 2 * e.phase + 1}) if(n < 3000) lens.push_back(n); 
            for(size_t n : lens) {
                ctx("%s %s position %zu generate %zu words", e.name.c_str(), nm[si].c_str(), p, n); ++g_execs; ++g_states; ++g_traces;
                EP a = w->clone(); RP m = r->clone(); size_t used = 0; std::vector<uint32_t> want;
                // a tiny engine may have no acceptable output at all from some state: bound the search
                size_t steps = 0; bool stuck = false;
                if(raw) { for(size_t i = 0; i < n; ++i) want.push_back((uint32_t)m->next()); used = n; }
                else { struct Stuck {}; try { want = bp.words(n, [&] { if(++steps > 200000) throw Stuck(); return (uint64_t)(e.bits ? m->next() : m->next() - mn); }, &used); } catch(Stuck&) { stuck = true; } }
                if(stuck) { count("states with no acceptable output"); continue; }
                std::vector<uint32_t> buf(n + 2, 0x5EED1234u); a->generate(&buf[1], &buf[1] + n); g_trans += used;
                if(buf[0] != 0x5EED1234u || buf[n + 1] != 0x5EED1234u) { fail("outside", fmt("%s: generate(%zu words) writes outside the range", e.name.c_str(), n)); return; }
                for(size_t i = 0; i < n; ++i) if(buf[i + 1] != want[i]) { fail("words", fmt("%s: %s, position %zu: word %zu of %zu is %u, the engine's outputs pack to %u", e.name.c_str(), nm[si].c_str(), p, i, n, buf[i + 1], want[i])); return; }
                for(size_t i = 0; i < std::min<size_t>(e.phase + 2, 40); ++i) { W x = a->next(), y = m->next(); if(!m->cmp(x, y)) { fail("continue", fmt("%s: %s, position %zu: after generating %zu words (%zu outputs) output %zu is %llu, the sequence continues with %llu", e.name.c_str(), nm[si].c_str(), p, n, used, i, (ull)x, (ull)y)); return; } }
            }
        }
    }
    sample(fmt("%d bits per output", bp.bits));
}
MC_ENGINE_MAIN
