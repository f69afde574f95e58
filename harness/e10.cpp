// E10: adaptors over scripted bases.
#include "script.hpp"
#include <boost/random/discard_block.hpp>
#include <boost/random/shuffle_order.hpp>
#include <boost/random/additive_combine.hpp>
#include <boost/random/xor_combine.hpp>
#include <utility>
using namespace mc; namespace br = boost::random;
// ---------- discard_block: data independent, so distinct serial numbers decide it for every base sequence
struct Serial { typedef uint32_t result_type; static const bool has_fixed_range = false; uint32_t n = 0; Serial() {} explicit Serial(uint32_t k) : n(k) {}
    static constexpr uint32_t min BOOST_PREVENT_MACRO_SUBSTITUTION () { return 0; } static constexpr uint32_t max BOOST_PREVENT_MACRO_SUBSTITUTION () { return ~0u; }
    uint32_t operator()() { ++g_trans; return n++; } void seed() { n = 0; } void seed(uint32_t v) { n = v; } template<class S> void seed(S& s) { n = 5000; } template<class I> void seed(I& f, I l) { n = *f++; }
    template<class I> Serial(I& f, I l) { n = *f++; } void discard(boost::uintmax_t z) { n += z; }
    bool operator==(const Serial& o) const { return n == o.n; }
    friend std::ostream& operator<<(std::ostream& o, const Serial& s) { return o << s.n; } friend std::istream& operator>>(std::istream& i, Serial& s) { return i >> s.n; } };
template<size_t P, size_t R> static void block() {
    ctx("discard_block<%zu,%zu>", P, R); typedef br::discard_block_engine<Serial, P, R> E;
    // histories of up to L operations: draw k, discard z, reseed, copy, save/restore; model = (block start, position)
    const int NOP = 9; size_t L = thorough() ? 5 : 4; size_t tot = 1; for(size_t i = 0; i < L; ++i) tot *= NOP;
    if((E::min)() != 0 || (E::max)() != ~0u) fail("range", "discard_block range differs from the base's");
    for(size_t c = 0; c < tot; ++c) {
        E e(Serial(100)); uint32_t start = 100; size_t idx = 0; ++g_execs; size_t q = c;
        auto expect = [&](size_t i) { return uint32_t(start + i / R * P + i % R); };
        std::string h; auto bad = [&](uint32_t got, uint32_t want) { fail("discard_block", fmt("discard_block<%zu,%zu> after %s: base value %u returned, documented %u", P, R, h.c_str(), got, want)); };
        for(size_t i = 0; i < L; ++i) { int op = q % NOP; q /= NOP; uint32_t x;
            switch(op) {
            case 0: h += "draw "; x = e(); if(x != expect(idx)) return bad(x, expect(idx)); ++idx; break;
            case 1: h += "draw*R "; for(size_t k = 0; k < R; ++k) { x = e(); if(x != expect(idx)) return bad(x, expect(idx)); ++idx; } break;
            case 2: h += "discard(1) "; e.discard(1); ++idx; break;
            case 3: h += "discard(R+2) "; e.discard(R + 2); idx += R + 2; break;
            case 4: { h += "copy "; E f(e); e(); e(); e = f; } break;
            case 5: { h += "save/restore "; std::stringstream s; s << e; E f(Serial(7)); f(); s >> f; if(!(f == e)) return fail("discard_block", fmt("discard_block<%zu,%zu> after %s: restored adaptor unequal", P, R, h.c_str())); e = f; } break;
            case 6: h += "seed(200) "; e.seed(200u); start = 200; idx = 0; break;
            case 7: { h += "seed() "; e.seed(); start = 0; idx = 0; } break;
            case 8: { h += "seed(it) "; uint32_t w[] = {300, 0}; uint32_t* f = w; e.seed(f, w + 2); start = 300; idx = 0; if(f != w + 1) return fail("discard_block", "iterator advanced wrongly"); } break;
            } }
        for(size_t k = 0; k < 2 * R + 1; ++k) { uint32_t x = e(); if(x != expect(idx)) return bad(x, expect(idx)); ++idx; }
        // the base has produced exactly the values up to the last one returned
        if(e.base().n != expect(idx - 1) + 1) return fail("discard_block", fmt("discard_block<%zu,%zu> after %s: %u base values used, documented %u", P, R, h.c_str(), e.base().n - start, expect(idx - 1) + 1 - start));
        ++g_states; ++g_traces;
    }
}
template<size_t P, size_t... R> static void blocks(std::index_sequence<R...>) { int d[] = {(block<P, R + 1>(), 0)...}; (void)d; }
// ---------- shuffle_order
template<class T, T Min, T Max, size_t K> static void shuffle_check(const std::vector<uint64_t>* alpha, size_t draws, const char* nm) {
    typedef SEng<T, Min, Max> B; typedef br::shuffle_order_engine<B, K> E; UseTape u; u.t.alpha = alpha; u128 range = (u128)B::span() + 1; size_t done = 0;
    if((E::min)() != Min || (E::max)() != Max) { fail("range", "shuffle_order range differs from the base's"); return; }
    ctx("shuffle_order<%s,%zu>", nm, K); explore(K + 1 + draws, [&](Chooser& ch) {
        u.t.ch = &ch; u.t.log.clear(); u.t.calls = 0; B b; E e(b);
        if(u.t.calls != K + 1) { fail("shuffle-init", fmt("shuffle_order<%s,%zu> construction uses %llu base values, documented %zu", nm, K, (ull)u.t.calls, K + 1)); return; }
        std::vector<uint64_t> v(u.t.log.begin(), u.t.log.begin() + K); uint64_t y = u.t.log[K];
        for(size_t i = 0; i < draws; ++i) {
            size_t j = (size_t)((u128)K * y / range);
            T got = e(); y = v[j]; typename uns<T>::type off = (typename uns<T>::type)got - (typename uns<T>::type)Min;
            if((uint64_t)off != y || u.t.calls != K + 2 + i) { fail("shuffle", fmt("shuffle_order<%s,%zu>, base offsets %s: draw %zu returns offset %llu, documented table entry %zu = %llu (%llu base values used)", nm, K, ch.str().c_str(), i, (ull)off, j, (ull)y, (ull)u.t.calls)); return; }
            v[j] = u.t.log.back();
        }
        ++done; ++g_states; ++g_traces;
    });
    count(std::string("shuffle ") + nm, done);
}
template<size_t K> static std::vector<uint64_t> edges(uint64_t span) {
    std::set<uint64_t> s = {0, span, span - 1, 1, span / 2}; u128 r = (u128)span + 1;
    for(size_t i = 1; i < K; ++i) { uint64_t b = (uint64_t)((r * i + K - 1) / K); s.insert(b); s.insert(b - 1); }
    return std::vector<uint64_t>(s.begin(), s.end());
}
template<class T, T Min, T Max, size_t K> static void shuffle_edge(const char* nm) {
    auto a = edges<K>(SEng<T, Min, Max>::span()); size_t budget = thorough() ? 3000000 : 100000, d = 1, n = 1; for(size_t i = 0; i < K + 2 && n <= budget; ++i) n *= a.size() < 2 ? 2 : a.size();
    if(n > budget) { // long table: fill from a rotating pattern, enumerate only the selecting value and one refill
        typedef SEng<T, Min, Max> B; typedef br::shuffle_order_engine<B, K> E; u128 range = (u128)B::span() + 1;
        size_t R = K > 16 ? (thorough() ? 8 : 1) : a.size(); std::vector<uint64_t> a1 = K > 16 ? std::vector<uint64_t>(a.begin(), a.begin() + (thorough() ? 40 : 4)) : a;
        for(uint64_t y0 : a) for(uint64_t y1 : a1) for(size_t rot = 0; rot < R; ++rot) {
            UseTape u; size_t k = 0; std::vector<uint64_t> seq; u.t.fn = [&](uint64_t) { uint64_t v = k == K ? y0 : k == K + 1 ? y1 : a[(k * 7 + rot) % a.size()]; ++k; seq.push_back(v); return v; };
            B b; E e(b); ++g_execs; std::vector<uint64_t> v(seq.begin(), seq.begin() + K); uint64_t y = seq[K]; ctx("shuffle_order<%s,%zu>", nm, K);
            for(int i = 0; i < 6; ++i) { size_t j = (size_t)((u128)K * y / range); T got = e(); y = v[j]; typename uns<T>::type off = (typename uns<T>::type)got - (typename uns<T>::type)Min;
                if((uint64_t)off != y || u.t.calls != K + 2 + i) { fail("shuffle", fmt("shuffle_order<%s,%zu>: selecting offset %llu, table rotation %zu: draw %d returns offset %llu, documented entry %zu = %llu", nm, K, (ull)y0, rot, i, (ull)off, j, (ull)y)); return; } v[j] = seq.back(); }
            ++g_states; ++g_traces; }
        return;
    }
    while(n * a.size() <= budget && d < 6) { n *= a.size(); ++d; }
    shuffle_check<T, Min, Max, K>(&a, d, nm);
}
template<class T, T Min, T Max, size_t... K> static void shuffle_edges(const char* nm, std::index_sequence<K...>) { int d[] = {(shuffle_edge<T, Min, Max, K + 1>(nm), 0)...}; (void)d; }
template<class T, T Min, size_t N, size_t K> static void shuffle_full(const char* nm) {
    size_t budget = thorough() ? 3000000 : 100000, d = 1, n = 1; for(size_t i = 0; i < K + 2 && n <= budget; ++i) n *= N; if(n > budget) return;
    while(n * N <= budget && d < 8) { n *= N; ++d; }
    shuffle_check<T, Min, T(Min + (T)(N - 1)), K>(nullptr, d, nm);
}
template<class T, T Min, size_t N> static void shuffle_n(const char* nm) { shuffle_full<T, Min, N, 1>(nm); shuffle_full<T, Min, N, 2>(nm); shuffle_full<T, Min, N, 3>(nm); shuffle_full<T, Min, N, 4>(nm); shuffle_full<T, Min, N, 5>(nm); shuffle_full<T, Min, N, 6>(nm); shuffle_full<T, Min, N, 7>(nm); }
template<class T, T Min> static void shuffle_t(const char* nm) { shuffle_n<T, Min, 2>(nm); shuffle_n<T, Min, 3>(nm); shuffle_n<T, Min, 4>(nm); shuffle_n<T, Min, 5>(nm); shuffle_n<T, Min, 7>(nm); shuffle_n<T, Min, 8>(nm); shuffle_n<T, Min, 11>(nm); }
// ---------- additive_combine
template<class T, T M1, T M2> static void additive(const std::vector<uint64_t>* a1, const std::vector<uint64_t>* a2, size_t draws, const char* nm) {
    typedef SEng<T, 1, T(M1 - 1), 0> B1; typedef SEng<T, 1, T(M2 - 1), 1> B2; typedef br::additive_combine_engine<B1, B2> E; UseTape u0(0), u1(1); u0.t.alpha = a1; u1.t.alpha = a2;
    if((E::min)() != 1 || (E::max)() != T(M1 - 1)) { fail("range", fmt("additive_combine<%s> range", nm)); return; }
    ctx("additive<%s>", nm); explore(2 * draws, [&](Chooser& ch) {
        u0.t.ch = u1.t.ch = &ch; u0.t.calls = u1.t.calls = 0; E e;
        for(size_t i = 0; i < draws; ++i) { T got = e(); i128 x = (i128)u0.t.log.back() + 1, y = (i128)u1.t.log.back() + 1, z = x - y; if(z <= 0) z += (i128)M1 - 1;
            if((i128)got != z || u0.t.calls != i + 1 || u1.t.calls != i + 1) { fail("additive", fmt("additive_combine<%s, m1=%llu, m2=%llu>: base values %llu and %llu give %lld, documented %lld (%llu and %llu values used)", nm, (ull)M1, (ull)M2, (ull)x, (ull)y, (ll)got, (ll)z, (ull)u0.t.calls, (ull)u1.t.calls)); return; } }
        u0.t.log.clear(); u1.t.log.clear(); ++g_states; ++g_traces;
    });
}
template<class T, T M1, int... M2> static void additive_small2(const char* nm, std::integer_sequence<int, M2...>) { int d[] = {(additive<T, M1, T(M2 + 2)>(nullptr, nullptr, (M1 - 1) * (M2 + 1) <= 40 ? 2 : 1, nm), 0)...}; (void)d; }
template<class T, int... M1> static void additive_small(const char* nm, std::integer_sequence<int, M1...>) { int d[] = {(additive_small2<T, T(M1 + 3)>(nm, std::make_integer_sequence<int, M1 + 2>()), 0)...}; (void)d; }
static std::vector<uint64_t> around(uint64_t span) { std::set<uint64_t> s; for(uint64_t c : {uint64_t(0), span, span / 2, span / 3, uint64_t(1) << 31, uint64_t(1) << 30}) for(int d = -3; d <= 3; ++d) { u128 v = (u128)c + d; if(c + d <= span && !(d < 0 && c < (uint64_t)-d)) s.insert(c + d); } return std::vector<uint64_t>(s.begin(), s.end()); }
template<class T, T M1, T M2> static void additive_wide(const char* nm) { auto a = around((uint64_t)M1 - 2), b = around((uint64_t)M2 - 2); additive<T, M1, M2>(&a, &b, 1, nm); }
// ---------- xor_combine
template<class T, T Max1, int S1, T Max2, int S2, T Min1 = 0, T Min2 = 0, class T2 = T> static void xor_check(const std::vector<uint64_t>* a1, const std::vector<uint64_t>* a2, size_t draws, const char* nm) {
    typedef SEng<T, Min1, Max1, 0> B1; typedef SEng<T2, T2(Min2), T2(Max2), 1> B2; typedef br::xor_combine_engine<B1, S1, B2, S2> E; UseTape u0(0), u1(1); u0.t.alpha = a1; u1.t.alpha = a2; B1 b1; B2 b2; T seen = 0;
    explore(2 * draws, [&](Chooser& ch) {
        u0.t.ch = u1.t.ch = &ch; u0.t.calls = u1.t.calls = 0; E e(b1, b2);
        for(size_t i = 0; i < draws; ++i) { T got = e(); T want = (T)((u128)(Min1 + u0.t.log.back()) << S1 ^ (u128)(Min2 + u1.t.log.back()) << S2); seen |= got;
            if(got != want || u0.t.calls != i + 1 || u1.t.calls != i + 1 || got > (E::max)() || got < (E::min)()) { fail("xor", fmt("xor_combine<%s, s1=%d, s2=%d>: base values %llu and %llu give %llu, documented %llu, range [%llu,%llu]", nm, S1, S2, (ull)u0.t.log.back(), (ull)u1.t.log.back(), (ull)got, (ull)want, (ull)(E::min)(), (ull)(E::max)())); return; } }
        u0.t.log.clear(); u1.t.log.clear(); ++g_states; ++g_traces;
    });
    if(seen == 0 || ((E::max)() >> 1) > seen) fail("xor-range", fmt("xor_combine<%s>: published maximum %llu is more than twice every possible output", nm, (ull)(E::max)()));
}
template<class T, T Max1, T Max2> static void xor_shifts(const char* nm, const std::vector<uint64_t>* a = nullptr, const std::vector<uint64_t>* b = nullptr, size_t d = 2) {
    xor_check<T, Max1, 0, Max2, 0>(a, b, d, nm); xor_check<T, Max1, 0, Max2, 1>(a, b, d, nm); xor_check<T, Max1, 1, Max2, 0>(a, b, d, nm); xor_check<T, Max1, 2, Max2, 3>(a, b, d, nm); xor_check<T, Max1, 3, Max2, 1>(a, b, d, nm); xor_check<T, Max1, 0, Max2, 3>(a, b, d, nm);
}
template<int P> static void addblocks() { add(fmt("discard_block p=%d", P), [] { blocks<P>(std::make_index_sequence<P>()); sample("all r, all histories of draw/discard/copy/save/seed"); }); }
#define SE(T, a, b, n) add("shuffle edges " #T " " n, [] { shuffle_edges<T, a, b>(#T " " n, std::make_index_sequence<9>()); shuffle_edge<T, a, b, 16>(#T " " n); shuffle_edge<T, a, b, 97>(#T " " n); shuffle_edge<T, a, b, 100>(#T " " n); shuffle_edge<T, a, b, 256>(#T " " n); sample("selecting values at every table boundary"); });
static void cases_() {
#if PART == 0
    addblocks<1>(); addblocks<2>(); addblocks<3>(); addblocks<4>(); addblocks<5>(); addblocks<7>();
    add("discard_block production", [] { block<223, 24>(); block<389, 24>(); block<389, 11>(); });
    add("xor small", [] { xor_shifts<uint32_t, 7, 7>("u32 3,3 bits"); xor_shifts<uint32_t, 12, 4>("u32 0..12,0..4"); xor_shifts<uint32_t, 3, 15>("u32 2,4 bits"); xor_shifts<uint16_t, 7, 5>("u16 3 bits,0..5"); xor_shifts<uint64_t, 7, 9>("u64 3 bits,0..9"); xor_shifts<uint32_t, 16, 8>("u32 0..16,0..8"); xor_shifts<uint32_t, 32, 1>("u32 0..32,0..1"); xor_shifts<uint16_t, 10, 20>("u16 0..10,0..20"); sample("every pair of base values twice"); });
    add("xor minima", [] { xor_check<uint32_t, 9, 0, 6, 0, 1, 1>(nullptr, nullptr, 2, "u32 1..9, 1..6"); xor_check<uint32_t, 9, 2, 6, 1, 1, 1>(nullptr, nullptr, 2, "u32 1..9, 1..6"); xor_check<uint32_t, 12, 1, 20, 0, 5, 17>(nullptr, nullptr, 2, "u32 5..12, 17..20"); xor_check<uint16_t, 12, 0, 20, 3, 0, 17>(nullptr, nullptr, 2, "u16 0..12, 17..20"); xor_check<uint64_t, 12, 40, 20, 33, 3, 0>(nullptr, nullptr, 2, "u64 3..12, 0..20");
        auto a = around(2147483645); xor_check<uint32_t, 2147483646u, 0, 2147483646u, 0, 1, 1>(&a, &a, 1, "u32 minstd"); xor_check<uint32_t, 2147483646u, 0, 2147483646u, 1, 1, 1>(&a, &a, 1, "u32 minstd"); xor_check<uint64_t, 2147483646u, 31, 2147483646u, 0, 1, 1>(&a, &a, 1, "u64 minstd");
        xor_check<uint64_t, 12, 40, 20, 3, 3, 1, uint32_t>(nullptr, nullptr, 2, "u64 with u32"); xor_check<uint32_t, 12, 4, 20, 7, 3, 0, uint16_t>(nullptr, nullptr, 2, "u32 with u16"); });
    add("xor sparse", [] { auto a = around(1u << 24), b = around(1u << 27), c = around(1ULL << 40), d = around(1ULL << 59), e = around((1ULL << 33) + 5); xor_shifts<uint32_t, (1u << 24), (1u << 24)>("u32 0..2^24", &a, &a, 1); xor_shifts<uint32_t, (1u << 27), (1u << 24)>("u32 0..2^27, 0..2^24", &b, &a, 1); xor_shifts<uint64_t, (1ULL << 40), (1ULL << 40)>("u64 0..2^40", &c, &c, 1); xor_shifts<uint64_t, (1ULL << 59), (1ULL << 59)>("u64 0..2^59", &d, &d, 1); xor_shifts<uint64_t, (1ULL << 33) + 5, (1ULL << 40)>("u64 0..2^33+5, 0..2^40", &e, &c, 1); });
    add("xor wide", [] { auto a = around(0xffffffffu), b = around(~0ULL), c = around((1ULL << 60) - 1); xor_shifts<uint32_t, 0xffffffffu, 0xffffffffu>("u32 full", &a, &a, 1); xor_shifts<uint64_t, ~0ULL, ~0ULL>("u64 full", &b, &b, 1); xor_shifts<uint64_t, (1ULL << 60) - 1, (1ULL << 60) - 1>("u64 60 bits", &c, &c, 1); });
#elif PART == 1
    add("shuffle u32", [] { shuffle_t<uint32_t, 0>("u32 from 0"); shuffle_t<uint32_t, 1>("u32 from 1"); sample("every base sequence up to the depth"); });
    add("shuffle i16/u16", [] { shuffle_t<int16_t, -3>("i16 from -3"); shuffle_t<uint16_t, 65000>("u16 from 65000"); });
#elif PART == 2
    add("shuffle i32", [] { shuffle_t<int32_t, 0>("i32 from 0"); shuffle_t<int32_t, -5>("i32 from -5"); });
    add("shuffle u64/i64", [] { shuffle_t<uint64_t, 0>("u64 from 0"); shuffle_t<int64_t, -9>("i64 from -9"); });
#elif PART == 3
    SE(uint16_t, 0, 65535, "full")
    SE(uint32_t, 1, 2147483646u, "minstd")
    SE(uint64_t, 1, ~0ULL - 1, "almost full")
    SE(int32_t, -1, 2147483646, "i32 offset")
#elif PART == 4
    SE(int16_t, -32768, 32767, "full")
    SE(uint32_t, 0, 714024, "kreutzer")
    SE(uint64_t, 0, (1ULL << 61) - 2, "2^61-1")
#elif PART == 5
    SE(uint32_t, 0, 0xffffffffu, "full")
    SE(uint64_t, 0, ~0ULL, "full")
    SE(uint64_t, 0, (1ULL << 57), "2^57")
#elif PART == 6
    SE(int32_t, (-2147483647 - 1), 2147483647, "full")
    SE(int64_t, INT64_MIN, INT64_MAX, "full")
    SE(uint64_t, 5, 0xffffffffULL * 3, "3*2^32")
#elif PART == 7
    add("additive small", [] { additive_small<uint32_t>("u32", std::make_integer_sequence<int, 12>()); additive_small<int32_t>("i32", std::make_integer_sequence<int, 12>()); sample("every pair of base values, m1 <= 14, m2 <= m1"); });
    add("additive small narrow and wide", [] { additive_small<int16_t>("i16", std::make_integer_sequence<int, 8>()); additive_small<uint64_t>("u64", std::make_integer_sequence<int, 8>()); });
    add("additive wide", [] { additive_wide<int32_t, 2147483563, 2147483399>("i32 L'Ecuyer"); additive_wide<uint32_t, 2147483563u, 2147483399u>("u32 L'Ecuyer"); additive_wide<uint32_t, 4294967291u, 4294967279u>("u32 top"); additive_wide<int64_t, 9223372036854775783LL, 9223372036854775643LL>("i64 top"); additive_wide<uint64_t, 18446744073709551557ULL, 18446744073709551533ULL>("u64 top"); additive_wide<int32_t, 2147483647, 2147483629>("i32 top"); additive_wide<uint16_t, 65521, 65519>("u16 top"); additive_wide<int16_t, 32749, 32719>("i16 top"); });
#endif
}
MC_MAIN({ cases_(); })
