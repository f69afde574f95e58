// D03: uniform_01, uniform_real_distribution (and the older wrappers), generate_canonical.
#include "dyneng.hpp"
#include <boost/random/uniform_01.hpp>
#include <boost/random/uniform_real.hpp>
#include <boost/random/uniform_real_distribution.hpp>
#include <boost/random/generate_canonical.hpp>
using namespace mc; namespace br = boost::random;
typedef long double LD;
template<class Real> struct Iv { Real a, b; };
template<class Real> static std::vector<Iv<Real>> intervals() {
    typedef std::numeric_limits<Real> L; Real M = (L::max)(), m = (L::min)(), dn = L::denorm_min(); auto up = [](Real x) { return std::nextafter(x, L::infinity()); }; auto dnn = [](Real x) { return std::nextafter(x, -L::infinity()); };
    std::vector<Iv<Real>> v{{0, 1}, {-1, 1}, {-1, 0}, {1, up(1)}, {dnn(1), 1}, {dnn(1), up(1)}, {1, up(up(up(1)))}, {3, 10}, {-7, -5}, {Real(0.1), Real(0.3)}, {Real(1e30), up(Real(1e30))}, {Real(-1e30), Real(1e30)}, {-M, M}, {0, M}, {-M, 0}, {M / 2, M}, {-M, -M / 2}, {dnn(M), M}, {-M, up(-M)}, {-M, dn}, {-M, M / 2}, {-M / 2, up(M / 2)}, {-M / 2, M / 2}, {0, dn}, {-dn, dn}, {0, m}, {m, 2 * m}, {-m, 3 * dn}, {Real(1e-30), 1}, {-1, Real(1e-30)}, {1, 1 + 8 * L::epsilon()}, {2, 2 + 6 * L::epsilon()}, {Real(-0.0), 1}, {Real(1e6), Real(1e6 + 1)}};
    for(int k = 1; k < 40; ++k) v.push_back({Real(k) / 7, Real(k * k + 3) / 5}); return v;
}
// one draw of the given engine offsets, then zeros; returns how many engine values were used
template<class F> static auto draw(UseTape& u, uint64_t first, F f) { u.t.calls = 0; u.t.log.clear(); u.t.fn = [&, first](uint64_t) -> uint64_t { return u.t.calls == 1 ? first : 0; }; auto r = f(); ++g_execs; ++g_states; return r; }
template<class Real> static bool check(const char* what, const std::string& who, Real r, Real a, Real b, LD frac, LD step, ull calls) {
    typedef std::numeric_limits<Real> L; LD w = (LD)b - (LD)a, big = std::max(std::fabs((LD)a), std::fabs((LD)b)), ideal = a + frac * w; if(sizeof(Real) == sizeof(LD) && !(w < std::numeric_limits<LD>::infinity())) { ideal = (a / 2 + frac * (b / 2 - a / 2)) * 2; w = std::numeric_limits<LD>::max(); }
    LD tol = 4 * L::epsilon() * big + 2 * L::denorm_min(); LD est = calls == 1 ? ideal : (LD)a;
    if(!(r >= a && r < b)) { fail(std::string("range ") + what, fmt("%s: %s over [%.21Lg, %.21Lg) returned %.21Lg", who.c_str(), what, (LD)a, (LD)b, (LD)r)); return false; }
    if(calls > 2 || (calls == 2 && ideal + tol < b)) { fail(std::string("draws ") + what, fmt("%s: %s over [%.21Lg, %.21Lg) used %llu engine values", who.c_str(), what, (LD)a, (LD)b, calls)); return false; }
    if(!(std::fabs((LD)r - est) <= tol)) { fail(std::string("value ") + what, fmt("%s: %s over [%.21Lg, %.21Lg) returned %.21Lg, expected %.21Lg", who.c_str(), what, (LD)a, (LD)b, (LD)r, est)); return false; }
    return true;
}
template<class Real, class E> static bool forms(UseTape& u, E& e, uint64_t v, LD frac, const std::string& who0, const std::vector<Iv<Real>>& ivs) {
    LD step = 0; std::string who = who0 + fmt(" engine offset %llu", (ull)v);
    { br::uniform_01<Real> d; Real r = draw(u, v, [&] { return d(e); }); if(!check<Real>("uniform_01", who, r, 0, 1, frac, step, u.t.calls)) return false; }
    { br::uniform_01<E&, Real> d(e); Real r = draw(u, v, [&] { return d(); }); if(!check<Real>("uniform_01<Engine&>", who, r, 0, 1, frac, step, u.t.calls)) return false; if(d.min() != 0 || d.max() != 1) { fail("minmax", "uniform_01 min/max"); return false; } }
    { br::uniform_01<E, Real> d(e); Real r = draw(u, v, [&] { return d(); }); if(!check<Real>("uniform_01<Engine>", who, r, 0, 1, frac, step, u.t.calls)) return false; }
    for(auto& i : ivs) {
        br::uniform_real_distribution<Real> d(i.a, i.b); Real r = draw(u, v, [&] { return d(e); }); ull c = u.t.calls; if(!check<Real>("uniform_real_distribution", who, r, i.a, i.b, frac, step, c)) return false;
        const br::uniform_real_distribution<Real> o(5, 6); typename br::uniform_real_distribution<Real>::param_type pm(i.a, i.b); Real q = draw(u, v, [&] { return o(e, pm); }); if(q != r || c != u.t.calls) { fail("param", who + fmt(": per-call bounds give %.17Lg, stored %.17Lg", (LD)q, (LD)r)); return false; }
        boost::uniform_real<Real> l(i.a, i.b); q = draw(u, v, [&] { return l(e); }); if(q != r || c != u.t.calls) { fail("uniform_real", who + fmt(": uniform_real gives %.17Lg, uniform_real_distribution %.17Lg", (LD)q, (LD)r)); return false; }
    }
    ++g_traces; return true;
}
static std::vector<uint64_t> offs(uint64_t s) { std::set<uint64_t> v; auto put = [&](u128 x) { for(int d = -2; d <= 2; ++d) { i128 y = (i128)x + d; if(y >= 0 && (u128)y <= s) v.insert((uint64_t)y); } }; put(0); put(s); for(int b = 1; b < 64; ++b) { put(u128(1) << b); put((u128)s - (u128(1) << b)); } for(int k = 1; k < 16; ++k) put((u128)s * k / 16); return std::vector<uint64_t>(v.begin(), v.end()); }
template<class Real, class U> static void ints() {
    UseTape u; auto ivs = intervals<Real>(); std::vector<Iv<Real>> few(ivs.begin(), ivs.begin() + 6);
    for(uint64_t R = 2; R <= (thorough() ? 200u : 40u); ++R) for(U b : lows<U>(R - 1)) { DynEng<U> e = dyn<U>(b, R - 1); for(uint64_t v = 0; v < R; ++v) if(!forms<Real>(u, e, v, (LD)v / R, fmt("engine of %llu values from %lld,", (ull)R, (ll)b), R < 6 || thorough() ? ivs : few)) return; }
    if(sizeof(U) == 2) for(uint64_t s : {65535ULL, 65534ULL, 32768ULL, 9999ULL}) for(U b : lows<U>(s)) { DynEng<U> e = dyn<U>(b, s); for(uint64_t v = 0; v <= s; ++v) if(!forms<Real>(u, e, v, (LD)v / (s + 1), fmt("engine of %llu values from %lld,", (ull)s + 1, (ll)b), few)) return; }
    for(int bit = 8; bit <= (int)sizeof(U) * 8; ++bit) for(int d = -2; d <= 1; ++d) { u128 s = (u128(1) << bit) - 1 + d; if(s > type_span<U>()) continue; auto ls = lows<U>((uint64_t)s); for(size_t i = 0; i < ls.size(); ++i) { if(!thorough() && bit % 8 && i != bit % ls.size()) continue; U b = ls[i]; DynEng<U> e = dyn<U>(b, (uint64_t)s); const auto& iv = thorough() || (d == 0 && (bit % 16 == 0 || bit == 31)) ? ivs : few; for(uint64_t v : offs((uint64_t)s)) if(!forms<Real>(u, e, v, (LD)v / ((LD)s + 1), fmt("engine of %.0Lf values from %lld,", (LD)s + 1, (ll)b), iv)) return; } }
    sample("all engine values of small ranges, boundary values of wide ranges");
}
template<class Real, class ER, int Bits> static bool reals1() {
    UseTape u; auto ivs = intervals<Real>(); SReal<ER, Bits> e; uint64_t s = e.span(); std::vector<uint64_t> vs; if(Bits <= 12) for(uint64_t v = 0; v <= s; ++v) vs.push_back(v); else vs = offs(s);
    for(uint64_t v : vs) if(!forms<Real>(u, e, v, (LD)v / ((LD)s + 1), fmt("engine of 2^%d reals,", Bits), ivs)) return false; return true;
}
template<class Real> static void reals() { reals1<Real, float, 24>() && reals1<Real, double, 53>() && reals1<Real, long double, 64>() && reals1<Real, float, 6>() && reals1<Real, double, 8>() && reals1<Real, double, 32>() && reals1<Real, double, 48>(); }
// ---- generate_canonical
template<class Real, size_t Bits, class E> static bool canon(E& e, u128 R, const char* who, bool real = false) {
    typedef std::numeric_limits<Real> L; int b = std::min<size_t>(Bits, L::digits); u128 lim = u128(1) << b; size_t k = 1; for(u128 m = R; m < lim; ++k) { if(m > (~u128(0)) / R) { ++k; break; } m *= R; }
    UseTape u; uint64_t s = (uint64_t)(R - 1); std::vector<uint64_t> al; if(R <= 4) for(uint64_t i = 0; i < R; ++i) al.push_back(i); else { al = {0, 1, s / 2, s - 1, s}; if(R > 1000) { al.push_back(s - 128); al.push_back(s / 3); } }
    LD RL = (LD)s + 1;
    auto one = [&](const char* sc) {
        Real r = br::generate_canonical<Real, Bits>(e); ++g_execs; ++g_states; LD ideal = 0; for(size_t i = 0; i < u.t.log.size(); ++i) ideal = (ideal + u.t.log[i]) / RL;   // the last value is the most significant digit
        if(u.t.log.size() != k) { fail("canon-draws", fmt("generate_canonical<%zu digits, %zu> from %s: %zu engine values, expected %zu", (size_t)L::digits, Bits, who, u.t.log.size(), k)); return false; }
        if(!(r >= 0 && r < 1)) { fail("canon-range", fmt("generate_canonical<%zu digits, %zu> from %s (%s): returned %.21Lg", (size_t)L::digits, Bits, who, sc, (LD)r)); return false; }
        if(!(std::fabs((LD)r - ideal) <= 4 * k * L::epsilon() * std::max(ideal, std::ldexp(LD(1), -b)))) { fail("canon-value", fmt("generate_canonical<%zu digits, %zu> from %s (%s): returned %.21Lg, expected %.21Lg", (size_t)L::digits, Bits, who, sc, (LD)r, ideal)); return false; }
        return true; };
    if(std::pow((double)al.size(), k) <= 20000) { u.t.alpha = &al; Chooser ch; ch.maxdepth = k + 2; u.t.ch = &ch; do { ch.begin(); u.t.log.clear(); try { if(!one(ch.str().c_str())) return false; } catch(Limit&) { fail("canon-draws", fmt("generate_canonical<%zu digits, %zu> from %s uses more than %zu engine values", (size_t)L::digits, Bits, who, k + 2)); return false; } } while(ch.advance()); }
    else for(uint64_t bg : {uint64_t(0), s, s / 2}) for(size_t p1 = 0; p1 < k; ++p1) for(size_t p2 : {p1, k - 1}) for(uint64_t v1 : al) for(uint64_t v2 : al) { size_t n = 0; u.t.log.clear(); u.t.fn = [&](uint64_t) -> uint64_t { size_t i = n++; return i == p1 ? v1 : i == p2 ? v2 : bg; }; if(!one("position scan")) return false; }
    ++g_traces; return true;
}
template<class Real, size_t Bits> static void canon_all() {
    std::vector<u128> Rs; for(int R = 2; R <= 20; ++R) Rs.push_back(R); for(int k = 5; k <= 64; ++k) for(int d = -1; d <= 1; ++d) Rs.push_back((u128(1) << k) + d); for(u128 v : {u128(1000), u128(2147483646), u128(4294967291ULL), u128(1000000)}) Rs.push_back(v);
    auto run = [&](auto tag, const char* nm) { typedef decltype(tag) U; for(u128 R : Rs) if(R - 1 <= type_span<U>()) { auto ls = lows<U>((uint64_t)(R - 1)); U b = ls[(size_t)(R % ls.size())]; for(U lo : {b, ls[0]}) { DynEng<U> e = dyn<U>(lo, (uint64_t)(R - 1)); if(!canon<Real, Bits>(e, R, fmt("%s engine of %.0Lf values from %lld", nm, (LD)R, (ll)lo).c_str())) return; } } };
    run(int16_t(), "int16"); run(uint16_t(), "uint16"); run(int32_t(), "int32"); run(uint32_t(), "uint32"); run(int64_t(), "int64"); run(uint64_t(), "uint64");
}
// engines that return reals: every call supplies one digit of the type's precision
template<class Real, size_t Bits, class ER, int EB> static bool canon_real1(const char* who) {
    typedef std::numeric_limits<Real> L; SReal<ER, EB> e; UseTape u; uint64_t s = e.span(); int b = std::min<size_t>(Bits, L::digits), k = std::max(1, (b + EB - 1) / EB);
    std::vector<uint64_t> al = offs(s); if(k > 1) al = {0, 1, s / 3, s / 2, s - 1, s}; u.t.alpha = &al; Chooser ch; ch.maxdepth = k + 2; u.t.ch = &ch;
    do { ch.begin(); u.t.log.clear(); try { Real r = br::generate_canonical<Real, Bits>(e); ++g_execs; ++g_states; LD ideal = 0; for(auto v : u.t.log) ideal = (ideal + v) / ((LD)s + 1);
        if((int)u.t.log.size() != k) { fail("canon-real-draws", fmt("generate_canonical<%d digits, %zu> from %s: %zu engine values, expected %d", L::digits, Bits, who, u.t.log.size(), k)); return false; }
        if(!(r >= 0 && r < 1) || !(std::fabs((LD)r - ideal) <= 4 * L::epsilon() * std::max(ideal, (LD)1 / 4) )) { fail("canon-real-value", fmt("generate_canonical<%d digits, %zu> from %s (%s): returned %.21Lg, expected %.21Lg", L::digits, Bits, who, ch.str().c_str(), (LD)r, ideal)); return false; } } catch(Limit&) { fail("canon-real-draws", "too many engine values"); return false; } } while(ch.advance());
    ++g_traces; return true;
}
template<class Real, size_t B> static void canon_real() { canon_real1<Real, B, float, 24>("24-bit float engine") && canon_real1<Real, B, double, 53>("53-bit double engine") && canon_real1<Real, B, long double, 64>("64-bit long double engine"); }
template<class Real> static void all(const char* nm) {
    static std::string n = nm;
#if PART < 3
#define I(U) add(n + " from " #U, [] { ints<Real, U>(); });
    I(int16_t) I(uint16_t) I(int32_t) I(uint32_t) I(int64_t) I(uint64_t) add(n + " from real engines", [] { reals<Real>(); });
#else
    add(n + " canonical", [] { canon_all<Real, 1>(); canon_all<Real, 8>(); canon_all<Real, 23>(); canon_all<Real, 24>(); canon_all<Real, 25>(); }); add(n + " canonical 32..", [] { canon_all<Real, 32>(); canon_all<Real, 52>(); canon_all<Real, 53>(); canon_all<Real, 54>(); });  add(n + " canonical 60..", [] { canon_all<Real, 60>(); canon_all<Real, 63>(); canon_all<Real, 64>(); canon_all<Real, 100>(); canon_all<Real, 0>(); });
    add(n + " canonical from real engines", [] { canon_real<Real, 8>(); canon_real<Real, 24>(); canon_real<Real, 40>(); canon_real<Real, 53>(); canon_real<Real, 64>(); canon_real<Real, 100>(); });
#endif
}
MC_MAIN({
#if PART % 3 == 0
    all<float>("float");
#elif PART % 3 == 1
    all<double>("double");
#else
    all<long double>("long double");
#endif
})
