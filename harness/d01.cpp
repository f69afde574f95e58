// D01: exact uniformity of uniform_int_distribution.
#include "dyneng.hpp"
#include <boost/random/uniform_int_distribution.hpp>
#include <boost/random/uniform_int.hpp>
#include <boost/random/random_number_generator.hpp>
#if PART >= 8
#include <boost/multiprecision/cpp_int.hpp>
#endif
using namespace mc; namespace br = boost::random;
// ---- small ranges: every engine output sequence up to a depth, exact counts
template<class T, class Eng> static bool small_one(Eng& e, uint64_t R, T lo, uint64_t n, size_t depth, const char* who) {
    br::uniform_int_distribution<T> d(lo, at_off(lo, n - 1)); typename br::uniform_int_distribution<T>::param_type pm(lo, at_off(lo, n - 1)); const br::uniform_int_distribution<T> other(1, 3);
    static std::vector<std::vector<uint64_t>> tally; tally.assign(depth + 1, std::vector<uint64_t>()); UseTape u; bool ok = true;
    Chooser ch; ch.maxdepth = depth; u.t.ch = &ch;
    auto where = [&] { return fmt("%s: bounds [%lld, %lld], engine of %llu values, script %s", who, (ll)lo, (ll)at_off(lo, n - 1), (ull)R, ch.str().c_str()); };
    do {
        ch.begin(); ++g_execs; u.t.calls = 0;
        try {
            T v = d(e); uint64_t off = (typename uns<T>::type)((typename uns<T>::type)v - (typename uns<T>::type)lo);
            if(v < lo || off >= n) { fail("range", where() + fmt(": returned %lld", (ll)v)); return false; }
            size_t used = ch.pos; auto& t = tally[used]; if(t.empty()) t.resize(n); ++t[off]; ++g_states;
            // the same script through the per-call parameter
            ch.pos = 0; T w = other(e, pm); if(w != v || ch.pos != used) { fail("param", where() + fmt(": stored bounds give %lld, per-call bounds %lld", (ll)v, (ll)w)); return false; }
        } catch(Limit&) {}
    } while(ch.advance());
    for(size_t L = 0; L <= depth && ok; ++L) if(!tally[L].empty()) for(size_t i = 1; i < n; ++i) if(tally[L][i] != tally[L][0]) {
        fail("bias", fmt("%s: bounds [%lld, %lld], engine of %llu values: with %zu engine values, %lld comes from %llu sequences and %lld from %llu", who, (ll)lo, (ll)at_off(lo, n - 1), (ull)R, L, (ll)lo, (ull)tally[L][0], (ll)at_off(lo, i), (ull)tally[L][i])); ok = false; break; }
    uint64_t tot = 0; for(auto& t : tally) for(uint64_t c : t) tot += c; if(!tot) { fail("never", fmt("%s: bounds [%lld, %lld], engine of %llu values: no sequence of %zu values completes", who, (ll)lo, (ll)at_off(lo, n - 1), (ull)R, depth)); ok = false; }
    ++g_traces; return ok;
}
static size_t depth_for(uint64_t R, uint64_t n) { size_t need = 1; double p = R; while(p < n) { p *= R; ++need; } size_t d = need; double budget = thorough() ? 60000 : 3000, c = std::pow((double)R, need); while(d < need + 4 && c * R <= budget) { c *= R; ++d; } return d; }
template<class T, class U> static void small(const char* who) {
    int nb = thorough() ? 12 : 9; uint64_t nn = thorough() ? 100 : 34;
    for(uint64_t R = 2; R <= (uint64_t)nb; ++R) for(uint64_t n = 1; n <= nn; ++n) {
        auto bl = lows<U>(R - 1); auto dl = lows<T>(n - 1); size_t k = (size_t)(R + n);
        for(size_t i = 0; i < std::max(bl.size(), dl.size()); ++i) { U b = bl[(i + k) % bl.size()]; T lo = dl[i % dl.size()]; DynEng<U> e = dyn<U>(b, R - 1); if(!small_one<T>(e, R, lo, n, depth_for(R, n), who)) return; }
    }
    sample(fmt("engines of 2..%d values, %llu interval lengths", nb, (ull)nn));
}
// ---- reference for wide ranges, 128-bit
static u128 ref(u128 R, u128 n, const std::function<uint64_t()>& next) {
    if(n == 1) return 0; if(R == n) return next();
    if(R > n) { u128 b = R / n; for(;;) { u128 q = next() / b; if(q < n) return q; } }
    for(;;) { u128 limit = n / R, res = 0, mult = 1; bool full = false; while(mult <= limit) { res += next() * mult; if(mult * R == n) { full = true; break; } mult *= R; } if(full) return res; u128 inc = ref(R, (n - 1) / mult + 1, next); res += inc * mult; if(res < n) return res; }
}
static std::vector<uint64_t> alphabet(u128 R, u128 n) {
    std::set<uint64_t> s; auto put = [&](u128 v) { for(int d = -1; d <= 1; ++d) { u128 w = v + d; if(w < R) s.insert((uint64_t)w); } }; put(0); put(R - 1); put(R / 2);
    if(R > n) { u128 b = R / n; for(u128 k : {u128(1), n / 2, n - 1, n}) put(k * b); }
    else { u128 q = n - 1; while(q) { put(q % R); if(q / R == 0 && q + 1 < R) { u128 b = R / (q + 1); put(b); put(b * (q + 1)); put(b * q); } q /= R; } }
    return std::vector<uint64_t>(s.begin(), s.end());
}
template<class T, class Eng> static bool wide_one(Eng& e, u128 R, T lo, T hi, u128 n, const char* who) {
    std::vector<uint64_t> al = alphabet(R, n); br::uniform_int_distribution<T> d(lo, hi); UseTape u; u.t.alpha = &al; Chooser ch; u.t.ch = &ch;
    size_t need = 1; for(u128 p = R; p < n && p <= (~u128(0)) / R; p *= R) ++need;
    double cap = thorough() ? 200000 : 5000;
    auto check = [&](T v) { size_t j = 0; u128 w = ref(R, n, [&] { return j < u.t.log.size() ? u.t.log[j++] : (j++, 0); }); T x = T(lo + T(w)); ++g_traces; ++g_states;
        if(v == x && j == u.t.log.size() && v >= lo && v <= hi) return true;
        std::string sc; for(auto q : u.t.log) sc += " " + std::to_string(q);
        fail("wide", fmt("%s: engine of 2^%.2f values, interval of 2^%.2f integers, lower bound %lld, engine offsets%s: got %lld (offset %llu), expected offset %llu; %zu engine values used, expected %zu", who, std::log2((double)R), std::log2((double)n), (ll)lo, sc.c_str(), (ll)v, (ull)(v - lo), (ull)w, u.t.log.size(), j)); return false; };
    auto shrink = [&](size_t k) { while(al.size() > k) al.erase(al.begin() + 1 + (al.size() * 7 / 11) % (al.size() - 2)); };
    if(std::pow(4.0, need + 1) <= cap) {   // every sequence over the alphabet, one rejection round included
        while(al.size() > 4 && std::pow((double)al.size(), need + 1) > cap) shrink(al.size() - 1);
        ch.maxdepth = need + 1;
        do { ch.begin(); ++g_execs; u.t.log.clear(); try { if(!check(d(e))) return false; } catch(Limit&) {} } while(ch.advance());
    } else {   // many engine values per result: every pair of alphabet values at two draw positions over three backgrounds
        shrink(5); u.t.ch = nullptr; size_t k; uint64_t bg, v1, v2; size_t p1, p2; u.t.fn = [&](uint64_t) -> uint64_t { size_t i = k++; return i == p1 ? v1 : i == p2 ? v2 : i > need + 2 ? 0 : bg; };
        for(uint64_t b : {uint64_t(0), (uint64_t)(R - 1), uint64_t(R / 2)}) for(p1 = 0; p1 <= need; ++p1) for(size_t q : {p1, p1 + 1, need - 1, need}) for(uint64_t x1 : al) for(uint64_t x2 : al) { if(q == p1 && x2 != x1) continue; bg = b; p2 = q; v1 = x1; v2 = x2; k = 0; u.t.log.clear(); ++g_execs; if(!check(d(e))) return false; }
    }
    return true;
}
static std::vector<uint64_t> spans(uint64_t mx) {   // span = count - 1
    std::set<uint64_t> s; auto put = [&](u128 v) { if(v <= mx && v > 0) s.insert((uint64_t)v); };
    for(int b = 1; b <= 64; ++b) if(b < 4 || b % 8 == 0 || b == 31 || b == 63 || b == 53 || b == 24 || b == 47) for(int d = -2; d <= 1; ++d) put((u128(1) << b) + d);
    for(u128 v : {u128(5), u128(9), u128(99), u128(999), u128(999999), u128(2147483646 - 1), u128(2147483647 - 1), u128(4294967291ULL), u128(1000000007ULL), u128(0xaaaaaaaaULL), u128(0x5555555555555555ULL), u128(0xaaaaaaaaaaaaaaaaULL), u128(3) << 40, u128(0xc000000000000000ULL), u128(~0ULL) - 58}) put(v);
    return std::vector<uint64_t>(s.begin(), s.end());
}
template<class T, class U> static void wide(const char* who) {
    auto es = spans(type_span<U>()), ds = spans(type_span<T>()); ds.insert(ds.begin(), 0); size_t k = 0;
    for(uint64_t s : es) for(uint64_t m : ds) { ++k; auto bl = lows<U>(s); auto dl = lows<T>(m); for(size_t i = 0; i < (thorough() ? std::max(bl.size(), dl.size()) : 2); ++i) { T lo = dl[(k + i) % dl.size()]; DynEng<U> e = dyn<U>(bl[(k / 3 + i) % bl.size()], s); if(!wide_one<T>(e, (u128)s + 1, lo, at_off(lo, m), (u128)m + 1, who)) return; } }
    sample(fmt("%zu engine ranges by %zu interval lengths", es.size(), ds.size()));
}
// ---- 16-bit engines: every engine value, exact counts
template<class T> static void full16(const char* who) {
    for(uint64_t s : {65535ULL, 65534ULL, 40000ULL, 32768ULL, 32767ULL, 257ULL, 255ULL}) for(uint64_t n : spans(s)) {
        ++n; if((uint64_t)(std::numeric_limits<T>::max)() < n + 3) continue; DynEng<uint16_t> e = dyn<uint16_t>(0, s); UseTape u; br::uniform_int_distribution<T> d(T(3), T(3 + (n - 1))); std::vector<uint32_t> c(n); uint64_t cur; u.t.fn = [&](uint64_t) { return u.t.calls == 1 ? cur : 0; };
        for(cur = 0; cur <= s; ++cur) { u.t.calls = 0; u.t.log.clear(); T v = d(e); ++g_execs; ++g_states; if(u.t.calls == 1) { if(v < 3 || (uint64_t)(v - 3) >= n) { fail("range16", fmt("%s: engine 0..%llu, value %llu gives %lld outside 3..%llu", who, (ull)s, (ull)cur, (ll)v, (ull)(n + 2))); return; } ++c[v - 3]; } }
        for(uint64_t i = 0; i < n; ++i) if(c[i] != c[0] || !c[0]) { fail("bias16", fmt("%s: engine 0..%llu, interval of %llu integers: offset %llu has %u engine values, offset 0 has %u", who, (ull)s, (ull)n, (ull)i, c[i], c[0])); return; } ++g_traces; }
}
// ---- floating-point engines: a grid of 2^digits equally likely values
template<class T> static void floats(const char* who) {
    auto ds = spans(type_span<T>()); ds.insert(ds.begin(), 0); size_t k = 0;
    for(uint64_t m : ds) { auto dl = lows<T>(m); T lo = dl[k++ % dl.size()]; T hi = at_off(lo, m); u128 n = (u128)m + 1;
        { SReal<float, 24> e; if(!wide_one<T>(e, u128(1) << 24, lo, hi, n, who)) return; } { SReal<double, 53> e; if(!wide_one<T>(e, u128(1) << 53, lo, hi, n, who)) return; } { SReal<long double, 64> e; if(!wide_one<T>(e, u128(1) << 64, lo, hi, n, who)) return; } }
}
template<class T> static void legacy() {
    for(uint64_t R = 2; R <= 6; ++R) for(int n = 1; n <= 20; ++n) { DynEng<uint32_t> e = dyn<uint32_t>(3, R - 1); UseTape u; Chooser ch; ch.maxdepth = depth_for(R, n); u.t.ch = &ch;
        boost::uniform_int<T> a(2, T(n + 1)); br::random_number_generator<DynEng<uint32_t>, T> g(e); br::uniform_int_distribution<T> ref(2, T(n + 1));
        do { ch.begin(); ++g_execs; try { T v = ref(e); size_t p = ch.pos; auto chk = [&](const char* w, T x, int off) { if(x + off != v || ch.pos != p) fail(w, fmt("%s(n=%d): %lld after %zu engine values, uniform_int_distribution gives %lld after %zu", w, n, (ll)x, ch.pos, (ll)v, p)); }; ch.pos = 0; T x = a(e); chk("uniform_int", x, 0); ch.pos = 0; x = a(e, T(n)); chk("uniform_int(eng,n)", x, 2); ch.pos = 0; x = g(T(n)); chk("random_number_generator", x, 2); ++g_states; } catch(Limit&) {} } while(ch.advance() && !too_many()); ++g_traces; }
}
#if PART >= 8
namespace mp = boost::multiprecision;
template<class T> static bool mp_one(uint64_t R, uint64_t n, const T& lo, const char* who) {
    br::uniform_int_distribution<T> d(lo, T(lo + (n - 1))); DynEng<uint32_t> e = dyn<uint32_t>(5, R - 1); UseTape u; Chooser ch; size_t dep = depth_for(R, n); ch.maxdepth = dep; u.t.ch = &ch; std::vector<std::vector<uint64_t>> t(dep + 1, std::vector<uint64_t>(n));
    do { ch.begin(); ++g_execs; try { T v = d(e); if(v < lo || v >= lo + n) { fail("mp-range", fmt("%s: out of range, engine of %llu values, %llu integers, script %s", who, (ull)R, (ull)n, ch.str().c_str())); return false; } ++t[ch.pos][(size_t)T(v - lo)]; ++g_states; } catch(Limit&) {} } while(ch.advance());
    for(auto& l : t) for(auto c : l) if(c != l[0]) { fail("mp-bias", fmt("%s: engine of %llu values, %llu integers: unequal counts", who, (ull)R, (ull)n)); return false; } ++g_traces; return true; }
template<class T> static bool mp_wide(u128 R, const T& lo, const T& hi, const char* who) {   // reference in cpp_int
    typedef mp::cpp_int Z; Z n = Z(hi) - Z(lo) + 1, RR = Z((uint64_t)(R - 1)) + 1; std::function<Z(Z, const std::function<uint64_t()>&)> rf = [&](Z m, const std::function<uint64_t()>& next) -> Z {
        if(m == 1) return 0; if(RR == m) return next(); if(RR > m) { Z b = RR / m; for(;;) { Z q = next() / b; if(q < m) return q; } }
        for(;;) { Z res = 0, mult = 1; bool full = false; while(mult <= m / RR) { res += next() * mult; if(mult * RR == m) { full = true; break; } mult *= RR; } if(full) return res; res += rf((m - 1) / mult + 1, next) * mult; if(res < m) return res; } };
    std::vector<uint64_t> al{0, 1, (uint64_t)(R / 2), (uint64_t)(R - 1)}; for(Z q = n - 1; q > 0; q /= RR) { uint64_t x = (uint64_t)Z(q % RR); al.push_back(x); if(x + 1 < R) al.push_back(x + 1); if(x) al.push_back(x - 1); } std::sort(al.begin(), al.end()); al.erase(std::unique(al.begin(), al.end()), al.end());
    size_t need = 1; for(Z p = RR; p < n; p *= RR) ++need; UseTape u; DynEng<uint64_t> e = dyn<uint64_t>(0, (uint64_t)(R - 1)); br::uniform_int_distribution<T> d(lo, hi);
    // every alphabet value at every draw position (and pairs of positions) over backgrounds
    for(uint64_t bg : {uint64_t(0), (uint64_t)(R - 1), uint64_t(1)}) for(size_t p1 = 0; p1 < need + 1; ++p1) for(size_t p2 : {p1, p1 + 1, need - 1, need}) for(uint64_t v1 : al) for(uint64_t v2 : al) { if(need > 8 && v1 != v2 && v1 != al[0] && v2 != al[0]) continue;
        auto val = [&](size_t k) -> uint64_t { return k == p1 ? v1 : k == p2 ? v2 : k > need + 2 ? 0 : bg; }; size_t k = 0; u.t.log.clear(); u.t.fn = [&](uint64_t) { return val(k++); }; T v = d(e); size_t j = 0; Z w = rf(n, [&] { return val(j++); }); ++g_execs; ++g_states;
        if(Z(v) != Z(lo) + w || j != k) { fail("mp-wide", fmt("%s: engine of 2^%.2f values: wrong value or %zu engine values instead of %zu", who, std::log2((double)R), k, j)); return false; } } ++g_traces; return true; }
template<class T> static void mpc(const char* who) {
    for(uint64_t R = 2; R <= 6; ++R) for(uint64_t n = 1; n <= 20; ++n) { if(!mp_one<T>(R, n, T(0), who)) return; if(!mp_one<T>(R, n, T(T(1) << 100), who)) return; }
    for(u128 R : {u128(2), u128(256), u128(2147483646), u128(1) << 32, u128(1) << 63, (u128(1) << 64) - 59, u128(1) << 64}) { for(int b : {20, 33, 64, 65, 100, 127}) for(int d = -1; d <= 1; ++d) { if(R < 256 && b > 64) continue; T lo = T(b % 2 ? 0 : 12345); T hi = lo + (T(1) << b) + d - 1; if(!mp_wide<T>(R, lo, hi, who)) return; } }
}
#endif
#define S(T, U) add("counts " #T " from " #U, [] { small<T, U>(#T " from " #U); });
#define W(T, U) add("wide " #T " from " #U, [] { wide<T, U>(#T " from " #U); });
#define ALL(T) S(T, int16_t) S(T, uint16_t) S(T, int32_t) S(T, uint32_t) S(T, int64_t) S(T, uint64_t) W(T, int16_t) W(T, uint16_t) W(T, int32_t) W(T, uint32_t) W(T, int64_t) W(T, uint64_t) add("float engines " #T, [] { floats<T>(#T); }); add("16-bit engine " #T, [] { full16<T>(#T); });
MC_MAIN({
#if PART == 0
    ALL(int32_t) add("older wrappers", [] { legacy<int>(); legacy<long>(); });
#elif PART == 1
    ALL(uint32_t)
#elif PART == 2
    ALL(int64_t)
#elif PART == 3
    ALL(uint64_t)
#elif PART == 4
    ALL(int16_t)
#elif PART == 5
    ALL(uint16_t)
#elif PART == 6
    ALL(int8_t)
#elif PART == 7
    ALL(uint8_t)
#else
    add("uint128_t", [] { mpc<mp::uint128_t>("uint128_t"); }); add("uint256_t", [] { mpc<mp::uint256_t>("uint256_t"); }); add("cpp_int", [] { mpc<mp::cpp_int>("cpp_int"); });
#endif
})
