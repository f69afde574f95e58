// E11: independent_bits_engine over scripted bases: exact counts per (base values used, result).
#include "script.hpp"
#include <boost/random/independent_bits.hpp>
#include <boost/multiprecision/cpp_int.hpp>
#include <utility>
using namespace mc; namespace br = boost::random;
template<class T, T Min, size_t R, size_t Wd, class U> static void small(const char* nm) {
    if(st().nfail) return;
    typedef SEng<T, Min, T(Min + (T)(R - 1))> B; typedef br::independent_bits_engine<B, Wd, U> E; B b; E e(b); UseTape u; const uint64_t N = uint64_t(1) << Wd;
    if((E::min)() != 0 || (uint64_t)(E::max)() != N - 1) { fail("range", fmt("independent_bits<%s, range %zu, w=%zu> publishes [%llu,%llu]", nm, R, Wd, (ull)(E::min)(), (ull)(E::max)())); return; }
    size_t budget = thorough() ? 6000000 : 150000, depth = 0, n = 1; while(n * R <= budget) { n *= R; ++depth; }
    int lg = 0; while((size_t(2) << lg) <= R) ++lg; if((size_t)((Wd + lg - 1) / lg) > depth) return;   // not one result within the budget
    std::map<size_t, std::vector<uint64_t>> tally; uint64_t lim = 0, done = 0; ctx("independent_bits<%s, range %zu, w=%zu>", nm, R, Wd); bool bad = false;
    explore(depth, [&](Chooser& ch) {
        u.t.ch = &ch; u.t.calls = 0; u.t.log.clear(); if(bad) return;
        try { uint64_t r = (uint64_t)e(); if(r >= N) { fail("range", fmt("independent_bits<%s, range %zu, w=%zu>: base offsets %s give %llu", nm, R, Wd, ch.str().c_str(), (ull)r)); bad = true; return; }
            auto& t = tally[u.t.calls]; if(t.empty()) t.resize(N); ++t[r]; ++done; ++g_traces; }
        catch(Limit&) { ++lim; }
    });
    g_states += tally.size() * N;
    if(!done && depth < Wd) return;
    if(!done) { fail("no-result", fmt("independent_bits<%s, range %zu, w=%zu>: no result within %zu base values", nm, R, Wd, depth)); return; }
    for(auto& t : tally) for(uint64_t r = 1; r < N; ++r) if(t.second[r] != t.second[0]) { fail("bias", fmt("independent_bits<%s, range %zu, w=%zu>: with %zu base values result 0 is reached by %llu base sequences and %llu by %llu", nm, R, Wd, t.first, (ull)t.second[0], (ull)r, (ull)t.second[r])); return; }
    // bounded expected use: the share of sequences without a result after the budgeted depth must shrink geometrically (1/2 per value at worst)
    double tot = 1; size_t base = tally.begin()->first; for(size_t i = 0; i < depth; ++i) tot *= R; double left = (double)lim / tot; (void)base;
    if(depth >= base + 4 && left > std::pow(0.75, (double)(depth - base)) * 8) fail("slow", fmt("independent_bits<%s, range %zu, w=%zu>: %.3g of all base sequences give no result within %zu values", nm, R, Wd, left, depth));
    if(R == 6 && Wd == 5) sample(fmt("range 6, w=5: %zu depths, %llu completed sequences, every result equally often", tally.size(), (ull)done));
}
template<class T, T Min, size_t R, class U, size_t... Wd> static void small_w(const char* nm, std::index_sequence<Wd...>) { int d[] = {(small<T, Min, R, Wd + 1, U>(nm), 0)...}; (void)d; }
template<class T, T Min, class U, size_t... R> static void small_r(const char* nm, std::index_sequence<R...>) { int d[] = {(small_w<T, Min, R + 2, U>(nm, std::make_index_sequence<12>()), 0)...}; (void)d; }
template<class T, T Min, class U> static void smalls(const char* nm) { small_r<T, Min, U>(nm, std::make_index_sequence<16>()); }
// ---- wide ranges: the standard's algorithm [rand.adapt.ibits] on boundary alphabets
template<class T, T Min, T Max, size_t Wd, class U> static void wide(const char* nm) {
    if(st().nfail) return;
    typedef SEng<T, Min, Max> B; typedef br::independent_bits_engine<B, Wd, U> E; B b; E e(b); UseTape u; u128 R = (u128)B::span() + 1;
    unsigned m = 0; while((u128(2) << m) <= R) ++m; unsigned n = (Wd + m - 1) / m, w0, n0; u128 y0, y1;
    auto calc = [&] { w0 = Wd / n; n0 = n - Wd % n; y0 = (R >> w0) << w0; y1 = (R >> (w0 + 1)) << (w0 + 1); }; calc(); if(R - y0 > y0 / n) { ++n; calc(); }
    std::set<uint64_t> s; for(u128 c : {u128(0), R - 1, y0, y1, R / 2, R / 3, u128(1) << w0, u128(2) << w0}) for(int d = -2; d <= 1; ++d) { i128 v = (i128)c + d; if(v >= 0 && (u128)v < R) s.insert((uint64_t)v); }
    std::vector<uint64_t> a(s.begin(), s.end()); 
    ctx("independent_bits<%s, w=%zu>", nm, Wd);
    auto check = [&](const std::string& what) {
        typename std::conditional<(Wd > 64), U, u128>::type S = 0; size_t i = 0; U got = e(); ++g_execs;
        auto take = [&](unsigned bits, u128 lim) { uint64_t v; do { v = i < u.t.log.size() ? u.t.log[i] : 0; ++i; } while(v >= lim && i <= u.t.log.size()); S = (S << bits) + (bits >= 64 ? v : v & ((uint64_t(1) << bits) - 1)); };
        for(unsigned k = 0; k < n; ++k) take(k < n0 ? w0 : w0 + 1, k < n0 ? y0 : y1);
        if(U(S) != got || i != u.t.log.size()) { std::ostringstream o; o << "independent_bits<" << nm << ", w=" << Wd << ">: base offsets " << what << " give " << got << " after " << u.t.log.size() << " values, the standard's algorithm gives " << U(S) << " after " << i; fail("wide", o.str()); return false; }
        return true; };
    // all sequences over the alphabet for the first two values, rotating pattern afterwards (and with up to three rejections)
    for(size_t x = 0; x < a.size(); ++x) for(size_t y = 0; y < a.size(); ++y) for(size_t rot = 0; rot < (n > 2 ? a.size() : 1); ++rot) {
        size_t k = 0; u.t.log.clear(); u.t.fn = [&](uint64_t) { uint64_t v = k == 0 ? a[x] : k == 1 ? a[y] : k > n + 8 ? 1 : a[(rot + k * 3) % a.size()]; ++k; return v; };
        ++g_states; ++g_traces; if(!check(fmt("%llu,%llu,rot %zu", (ull)a[x], (ull)a[y], rot))) return; }
}
template<class T, T Min, T Max> static void wides(const char* nm) {
    wide<T, Min, Max, 1, uint16_t>(nm); wide<T, Min, Max, 7, uint16_t>(nm); wide<T, Min, Max, 8, uint32_t>(nm); wide<T, Min, Max, 15, uint16_t>(nm); wide<T, Min, Max, 16, uint16_t>(nm); wide<T, Min, Max, 16, uint64_t>(nm); wide<T, Min, Max, 17, uint32_t>(nm);
    wide<T, Min, Max, 24, uint32_t>(nm); wide<T, Min, Max, 31, uint32_t>(nm); wide<T, Min, Max, 32, uint32_t>(nm); wide<T, Min, Max, 32, uint64_t>(nm); wide<T, Min, Max, 33, uint64_t>(nm); wide<T, Min, Max, 48, uint64_t>(nm); wide<T, Min, Max, 53, uint64_t>(nm); wide<T, Min, Max, 61, uint64_t>(nm); wide<T, Min, Max, 63, uint64_t>(nm); wide<T, Min, Max, 64, uint64_t>(nm);
}
template<class T, T Min, T Max> static void multi(const char* nm) { typedef boost::multiprecision::uint128_t U1; typedef boost::multiprecision::uint256_t U2;
    wide<T, Min, Max, 65, U1>(nm); wide<T, Min, Max, 96, U1>(nm); wide<T, Min, Max, 128, U1>(nm); wide<T, Min, Max, 200, U2>(nm); wide<T, Min, Max, 256, U2>(nm); }
MC_MAIN({
#if PART == 0
    add("small ranges u32", [] { smalls<uint32_t, 0, uint32_t>("u32 from 0"); });
#elif PART == 1
    add("small ranges i32 negative", [] { smalls<int32_t, -7, uint64_t>("i32 from -7"); });
#elif PART == 2
    add("small ranges u16", [] { smalls<uint16_t, 3, uint16_t>("u16 from 3"); });
#elif PART == 3
    add("small ranges i64", [] { smalls<int64_t, -3, uint16_t>("i64 from -3"); });
#elif PART == 4
    add("wide minstd", [] { wides<uint32_t, 1, 2147483646>("minstd"); }); add("wide u32", [] { wides<uint32_t, 0, 0xffffffffu>("u32 full"); }); add("wide u32 odd", [] { wides<uint32_t, 0, 0xfffffffbu - 1>("u32 2^32-5"); });
    add("wide u16", [] { wides<uint16_t, 0, 65535>("u16 full"); });
#elif PART == 5
    add("wide u64", [] { wides<uint64_t, 0, ~0ULL>("u64 full"); }); add("wide i64", [] { wides<int64_t, INT64_MIN, INT64_MAX>("i64 full"); }); add("wide i32", [] { wides<int32_t, (-2147483647 - 1), 2147483647>("i32 full"); }); add("wide i16", [] { wides<int16_t, -32768, 32767>("i16 full"); });
#elif PART == 6
    add("wide 2^61-1", [] { wides<uint64_t, 0, (1ULL << 61) - 2>("2^61-1"); }); add("wide 2^64-59", [] { wides<uint64_t, 0, ~0ULL - 59>("2^64-59"); }); add("wide 3*2^40", [] { wides<uint64_t, 1, 3ULL << 40>("3*2^40"); }); add("wide 1000", [] { wides<uint16_t, 0, 999>("1000 values"); }); add("wide 24 bit", [] { wides<uint32_t, 0, 0xffffff>("24 bit"); });
#else
    add("multiprecision", [] { multi<uint32_t, 0, 0xffffffffu>("u32 full"); multi<uint32_t, 1, 2147483646>("minstd"); multi<uint64_t, 0, ~0ULL>("u64 full"); multi<uint32_t, 0, 0xffffff>("24 bit"); sample("128- and 256-bit results"); });
#endif
})
