// D02: uniform_smallint uses one engine value and maps the engine range onto the interval as evenly as possible.
#include "dyneng.hpp"
#include <boost/random/uniform_smallint.hpp>
#include <boost/multiprecision/cpp_int.hpp>
using namespace mc; namespace br = boost::random;
template<class T, class U> static void small(const char* who) {
    UseTape u; uint64_t cur = 0; u.t.fn = [&](uint64_t) { return cur; };
    for(uint64_t R = 2; R <= (thorough() ? 120u : 40u); ++R) for(uint64_t n = 1; n <= (thorough() ? 120u : 48u); ++n) {
        auto bl = lows<U>(R - 1); auto dl = lows<T>(n - 1);
        for(size_t i = 0; i < std::max(bl.size(), dl.size()); ++i) { U b = bl[(i + R) % bl.size()]; T lo = dl[(i + n) % dl.size()], hi = at_off(lo, n - 1); DynEng<U> e = dyn<U>(b, R - 1);
            br::uniform_smallint<T> d(lo, hi); const br::uniform_smallint<T> other(2, 5); typename br::uniform_smallint<T>::param_type pm(lo, hi); std::vector<uint64_t> c(n);
            auto where = [&] { return fmt("%s: bounds [%lld, %lld], engine [%lld, %lld] offset %llu", who, (ll)lo, (ll)hi, (ll)b, (ll)e.mx, (ull)cur); };
            for(cur = 0; cur < R; ++cur) { u.t.calls = 0; u.t.log.clear(); T v = d(e); ++g_execs; ++g_states; if(u.t.calls != 1) { fail("draws", where() + fmt(": %llu engine values used", (ull)u.t.calls)); return; }
                if(v < lo || v > hi) { fail("range", where() + fmt(": returned %lld", (ll)v)); return; } ++c[(typename uns<T>::type)((typename uns<T>::type)v - (typename uns<T>::type)lo)];
                u.t.calls = 0; if(other(e, pm) != v || u.t.calls != 1) { fail("param", where() + ": per-call bounds give another value"); return; } }
            for(uint64_t k = 0; k < n; ++k) if(c[k] != R / n && c[k] != (R + n - 1) / n) { fail("bias", fmt("%s: bounds [%lld, %lld], engine of %llu values: %lld comes from %llu of them", who, (ll)lo, (ll)hi, (ull)R, (ll)at_off(lo, k), (ull)c[k])); return; }
            ++g_traces; } }
    sample("all engine values for every pair of lengths");
}
static std::vector<uint64_t> spans(uint64_t mx) { std::set<uint64_t> s; auto put = [&](u128 v) { if(v <= mx && v > 0) s.insert((uint64_t)v); }; for(int b = 1; b <= 64; ++b) for(int d = -2; d <= 1; ++d) put((u128(1) << b) + d); for(u128 v : {u128(9), u128(99), u128(999999), u128(2147483645), u128(4294967291ULL), u128(0x5555555555555555ULL), u128(0xc000000000000000ULL)}) put(v); return std::vector<uint64_t>(s.begin(), s.end()); }
template<class T, class U> static void wide(const char* who) {
    UseTape u; uint64_t cur = 0; u.t.fn = [&](uint64_t) { return cur; }; size_t k = 0; auto ds = spans(type_span<T>()); ds.insert(ds.begin(), 0);
    for(uint64_t s : spans(type_span<U>())) for(uint64_t m : ds) { auto bl = lows<U>(s); auto dl = lows<T>(m); ++k; U b = bl[k % bl.size()]; T lo = dl[(k / 3) % dl.size()], hi = at_off(lo, m); DynEng<U> e = dyn<U>(b, s); br::uniform_smallint<T> d(lo, hi);
        std::set<uint64_t> vs; auto put = [&](u128 c) { for(int q = -1; q <= 1; ++q) { u128 w = c + q; if(w <= s) vs.insert((uint64_t)w); } }; put(0); put(s); put(m); put(s / 2); u128 n = (u128)m + 1; put(((u128)s + 1) / n * n); put(n * 3); put(n * 1000003);
        for(uint64_t v : vs) { cur = v; u.t.calls = 0; u.t.log.clear(); T r = d(e); T x = at_off(lo, (uint64_t)(m >= s ? (u128)v : (u128)v % n)); ++g_execs; ++g_states; ++g_traces;
            if(r != x || u.t.calls != 1) { fail("wide", fmt("%s: engine of %llu+1 values, interval of %llu+1 integers from %lld, engine offset %llu: got %lld, expected %lld", who, (ull)s, (ull)m, (ll)lo, (ull)v, (ll)r, (ll)x)); return; } } }
}
template<class T, class Real, int Bits> static void real(const char* who) {
    UseTape u; uint64_t cur = 0; u.t.fn = [&](uint64_t) { return cur; }; uint64_t R = uint64_t(1) << Bits; SReal<Real, Bits> e;
    for(uint64_t n = 1; n <= R && n < (thorough() ? 4000u : 400u) && n - 1 <= (uint64_t)(std::numeric_limits<T>::max)(); n = n < 60 ? n + 1 : n + 37) for(T lo : lows<T>(n - 1)) {
        T hi = at_off(lo, n - 1); br::uniform_smallint<T> d(lo, hi); std::vector<uint64_t> c(n);
        for(cur = 0; cur < R; ++cur) { u.t.calls = 0; u.t.log.clear(); T v = d(e); ++g_execs; ++g_states; if(u.t.calls != 1 || v < lo || v > hi) { fail("real-range", fmt("%s: bounds [%lld, %lld], engine value %llu/2^%d: returned %lld with %llu engine values", who, (ll)lo, (ll)hi, (ull)cur, Bits, (ll)v, (ull)u.t.calls)); return; } ++c[(typename uns<T>::type)((typename uns<T>::type)v - (typename uns<T>::type)lo)]; }
        for(uint64_t k = 0; k < n; ++k) if(c[k] != R / n && c[k] != (R + n - 1) / n) { fail("real-bias", fmt("%s: bounds [%lld, %lld], engine of 2^%d reals: %lld comes from %llu of them", who, (ll)lo, (ll)hi, Bits, (ll)at_off(lo, k), (ull)c[k])); return; } ++g_traces; }
    // full-precision engines: the ends
    for(uint64_t m : spans(type_span<T>())) for(T lo : lows<T>(m)) { SReal<Real, std::numeric_limits<Real>::digits> f; uint64_t s = f.span(); T hi = at_off(lo, m); br::uniform_smallint<T> d(lo, hi);
        for(uint64_t v : {uint64_t(0), uint64_t(1), s / 2, s - 1, s}) { cur = v; u.t.calls = 0; T r = d(f); ++g_execs; ++g_states; long double id = (long double)v / ((long double)s + 1) * ((long double)m + 1), got = (long double)(uint64_t)(typename uns<T>::type)((typename uns<T>::type)r - (typename uns<T>::type)lo);
            if(u.t.calls != 1 || r < lo || r > hi || std::fabs(got - id) > 1 + 4 * (long double)m * std::numeric_limits<Real>::epsilon()) { fail("real-ends", fmt("%s: interval of %llu+1 integers from %lld, engine value %llu of %llu: returned offset %.0Lf, ideal %.1Lf", who, (ull)m, (ll)lo, (ull)v, (ull)s, got, id)); return; } } }
}
template<class T> static void mp(const char* who) { UseTape u; uint64_t cur; u.t.fn = [&](uint64_t) { return cur; };
    for(uint64_t R = 2; R < 30; ++R) for(uint64_t n = 1; n < 40; ++n) for(int sh : {0, 90}) { T lo = T(T(3) << sh); DynEng<uint32_t> e = dyn<uint32_t>(9, R - 1); br::uniform_smallint<T> d(lo, T(lo + (n - 1))); std::vector<uint64_t> c(n); for(cur = 0; cur < R; ++cur) { T v = d(e); ++g_execs; ++g_states; if(v < lo || v >= lo + n) { fail("mp-range", fmt("%s: out of range", who)); return; } ++c[(size_t)T(v - lo)]; } for(auto k : c) if(k != R / n && k != (R + n - 1) / n) { fail("mp-bias", fmt("%s: R=%llu n=%llu", who, (ull)R, (ull)n)); return; } ++g_traces; } }
#define P(T, U) add("counts " #T " from " #U, [] { small<T, U>(#T " from " #U); }); add("wide " #T " from " #U, [] { wide<T, U>(#T " from " #U); });
#define ALL(T) P(T, int16_t) P(T, uint16_t) P(T, int32_t) P(T, uint32_t) P(T, int64_t) P(T, uint64_t) add("real " #T, [] { real<T, float, 10>(#T " from float"); real<T, double, 12>(#T " from double"); real<T, long double, 9>(#T " from long double"); });
MC_MAIN({
#if PART == 0
    ALL(int32_t) ALL(uint32_t) add("uint128_t", [] { mp<boost::multiprecision::uint128_t>("uint128_t"); }); add("cpp_int", [] { mp<boost::multiprecision::cpp_int>("cpp_int"); });
#elif PART == 1
    ALL(int64_t) ALL(uint64_t)
#elif PART == 2
    ALL(int16_t) ALL(uint16_t)
#else
    ALL(int8_t) ALL(uint8_t)
#endif
})
