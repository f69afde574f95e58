// D04: bernoulli_distribution.
#include "dyneng.hpp"
#include <boost/random/bernoulli_distribution.hpp>
using namespace mc; namespace br = boost::random;
template<class Real> static std::vector<Real> grid(uint64_t R) {
    std::set<Real> s; auto put = [&](Real p) { if(p >= 0 && p <= 1) s.insert(p); }; put(0); put(1); put(std::numeric_limits<Real>::min()); put(std::numeric_limits<Real>::denorm_min()); put(Real(0.1)); put(std::numeric_limits<Real>::epsilon());
    for(uint64_t k = 0; k <= R && k <= 70; ++k) for(uint64_t den : {R, R > 1 ? R - 1 : 1}) { for(uint64_t num : {k, den - std::min(k, den)}) { Real p = Real(num) / Real(den); put(p); put(std::nextafter(p, Real(2))); put(std::nextafter(p, Real(-1))); } }
    for(int k = 0; k <= 64; ++k) { put(Real(k) / 64); put(Real(k) / 61); } return std::vector<Real>(s.begin(), s.end());
}
template<class Real, class U> static void counts(const char* who, const std::vector<uint64_t>& Rs) {
    UseTape u; uint64_t cur = 0; u.t.fn = [&](uint64_t) { return cur; };
    for(uint64_t R : Rs) for(U b : lows<U>(R - 1)) { DynEng<U> e = dyn<U>(b, R - 1); uint64_t prev = 0; if(R > 5000 && b != 0) continue;
        for(Real p : grid<Real>(R)) {
            br::bernoulli_distribution<Real> d(p); const br::bernoulli_distribution<Real> o(Real(0.25)); typename br::bernoulli_distribution<Real>::param_type pm(p); uint64_t c = 0;
            for(cur = 0; cur < R; ++cur) { u.t.calls = 0; u.t.log.clear(); bool v = d(e); ++g_execs; ++g_states; uint64_t want = p == 0 ? 0 : 1; c += v; if(u.t.calls != want) { fail("draws", fmt("%s: p=%.17g uses %llu engine values", who, (double)p, (ull)u.t.calls)); return; } u.t.calls = 0; if(o(e, pm) != v || u.t.calls != want) { fail("param", fmt("%s: p=%.17g per call differs at engine offset %llu", who, (double)p, (ull)cur)); return; } }
            long double ideal = (long double)p * R; if(std::fabs(ideal - c) > 1.0000001L || (p == 0 && c) || (p == 1 && c != R)) { fail("count", fmt("%s: p=%.17g, engine of %llu values from %lld: %llu give true, expected %.6Lf", who, (double)p, (ull)R, (ll)b, (ull)c, ideal)); return; }
            if(c < prev) { fail("monotone", fmt("%s: p=%.17g gives fewer true values than a smaller p", who, (double)p)); return; } prev = c; ++g_traces; } }
    sample("every engine value for a grid of p");
}
// wide engines: true exactly for offsets below the threshold, to within one value or the precision of Real
template<class Real, class U> static void wide(const char* who) {
    UseTape u; uint64_t cur = 0; u.t.fn = [&](uint64_t) { return cur; }; std::set<uint64_t> ss; for(int k = 14; k <= 64; ++k) for(int d = -2; d <= 1; ++d) { u128 v = (u128(1) << k) + d; if(v <= type_span<U>()) ss.insert((uint64_t)v); } for(uint64_t v : {99999ULL, 2147483645ULL}) if(v <= type_span<U>()) ss.insert(v);
    for(uint64_t s : ss) for(U b : lows<U>(s)) { DynEng<U> e = dyn<U>(b, s); std::vector<Real> g; for(int k = 0; k <= 40; ++k) { g.push_back(Real(k) / 40); g.push_back(std::ldexp(Real(1), -k)); g.push_back(1 - std::ldexp(Real(1), -k)); } g.push_back(std::ldexp(Real(1), -70)); g.push_back(std::numeric_limits<Real>::denorm_min());
        for(Real p : g) { br::bernoulli_distribution<Real> d(p); long double t = (long double)p * ((long double)s + 1), slack = 1 + 4 * std::numeric_limits<Real>::epsilon() * t;
            for(long double at : {0.0L, t - slack * 2 - 1, t - slack - 0.001L, t + slack + 0.001L, t + slack * 2 + 1, (long double)s / 2, (long double)s - 1, (long double)s}) { if(at < 0 || at > s) continue; cur = (uint64_t)at; u.t.calls = 0; u.t.log.clear(); bool v = d(e); ++g_execs; ++g_states; long double q = cur; bool must = p == 1 || (p > 0 && q + 1 <= t - slack), mustnot = p == 0 || (p < 1 && q >= t + slack);
                if((must && !v) || (mustnot && v) || u.t.calls != (p == 0 ? 0u : 1u)) { fail("wide", fmt("%s: p=%.17g, engine of 2^%.3f values from %lld, engine offset %llu (threshold %.1Lf): returned %d with %llu engine values", who, (double)p, std::log2((double)s + 1), (ll)b, (ull)cur, t, (int)v, (ull)u.t.calls)); return; } } ++g_traces; } }
}
template<class Real, class E, int Bits> static void real(const char* who) {
    UseTape u; uint64_t cur = 0; u.t.fn = [&](uint64_t) { return cur; }; uint64_t R = uint64_t(1) << Bits; SReal<E, Bits> e;
    for(Real p : grid<Real>(R)) { br::bernoulli_distribution<Real> d(p); uint64_t c = 0; for(cur = 0; cur < R; ++cur) { u.t.calls = 0; u.t.log.clear(); c += d(e); ++g_execs; ++g_states; if(u.t.calls != (p == 0 ? 0u : 1u)) { fail("real-draws", fmt("%s: p=%.17g uses %llu engine values", who, (double)p, (ull)u.t.calls)); return; } }
        long double ideal = (long double)p * R; if(std::fabs(ideal - c) > 1.0001L || (p == 0 && c) || (p == 1 && c != R)) { fail("real-count", fmt("%s: p=%.17g, engine of 2^%d reals: %llu give true, expected %.6Lf", who, (double)p, Bits, (ull)c, ideal)); return; } ++g_traces; }
}
template<class Real> static void all(const char* nm) {
    static std::string s = nm; static std::vector<uint64_t> sm; for(uint64_t r = 2; r <= 64; ++r) sm.push_back(r); static std::vector<uint64_t> md = sm; md.insert(md.end(), {255, 256, 257, 1000, 4096, 65535, 65536});
#define P(U) add(s + " counts from " #U, [] { counts<Real, U>(#U, sizeof(U) == 2 ? md : sm); }); add(s + " wide from " #U, [] { wide<Real, U>(#U); });
    P(int16_t) P(uint16_t) P(int32_t) P(uint32_t) P(int64_t) P(uint64_t)
    add(s + " real engines", [] { real<Real, float, 11>("float engine"); real<Real, double, 12>("double engine"); real<Real, long double, 9>("long double engine"); });
}
MC_MAIN({ all<float>("float"); all<double>("double"); all<long double>("long double"); })
