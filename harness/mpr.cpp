// D03, D04, D08, D14 with user-defined number types: reals of 113 and 168 bits, integers of 128 bits and unbounded.
#include "dists.hpp"
#include <boost/multiprecision/cpp_bin_float.hpp>
#include <boost/multiprecision/cpp_int.hpp>
#include <boost/random/uniform_01.hpp>
#include <boost/random/uniform_real.hpp>
#include <boost/random/uniform_real_distribution.hpp>
#include <boost/random/generate_canonical.hpp>
#include <boost/random/bernoulli_distribution.hpp>
using namespace mc; namespace br = boost::random; namespace mp = boost::multiprecision;
typedef mp::cpp_bin_float_quad Quad; typedef mp::cpp_bin_float_50 Deci; typedef mp::number<mp::cpp_bin_float<400>, mp::et_off> Big;
typedef mp::number<mp::cpp_bin_float<40>, mp::et_on> DeciE;
template<class R> Big big(const R& r) { return Big(r); }
template<class R> std::string str(const R& r) { return r.str(0, std::ios_base::fmtflags(0)); }
// an engine returning big integers in [lo, lo + span]
template<class I> struct BigEng { typedef I result_type; static const bool has_fixed_range = false; I mn, span; const std::vector<I>* s; size_t i = 0; I min BOOST_PREVENT_MACRO_SUBSTITUTION () const { return mn; } I max BOOST_PREVENT_MACRO_SUBSTITUTION () const { return I(mn + span); } I operator()() { ++g_trans; ++i; if(i > s->size()) return mn; return I(mn + (*s)[i - 1]); } };
// the fraction of the first value, and engines with one fixed first value and then zeros
template<class Real> struct IvB { Real a, b; };
template<class Real> std::vector<IvB<Real>> ivsB() { typedef std::numeric_limits<Real> L; Real M = L::digits > 113 ? Real("1e1000000") : (L::max)(), e = L::epsilon();   /* the oracle type's exponents end where cpp_bin_float_50's do */ return {{0, 1}, {-1, 1}, {1, 1 + e}, {1 - e / 2, 1}, {3, 10}, {-7, -5}, {Real(1) / 10, Real(3) / 10}, {Real("-1e300"), Real("1e300")}, {-M, M}, {0, M}, {-M / 2, M}, {-M, 0}, {Real("1e-200"), Real("3e-200")}, {1, 1 + 8 * e}, {1000000, 1000001}}; }
template<class Real> bool okB(const char* what, const std::string& who, const Real& r, const Real& a, const Real& b, const Big& frac, ull calls) {
    typedef std::numeric_limits<Real> L; Big A = big(a), B = big(b), w = B - A, ideal = A + frac * w, tol = 4 * big(L::epsilon()) * std::max(Big(abs(A)), Big(abs(B)));
    if(!(r >= a && r < b)) { fail(std::string("range ") + what, who + ": " + what + " over [" + str(a) + ", " + str(b) + ") returned " + str(r)); return false; }
    if(calls > 2 || calls < 1 || (calls == 2 && ideal + tol < B)) { fail(std::string("draws ") + what, who + fmt(": %s used %llu engine values over [", what, calls) + str(a) + ", " + str(b) + ")"); return false; }
    if(!(abs(big(r) - (calls == 1 ? ideal : A)) <= tol)) { fail(std::string("value ") + what, who + ": " + what + " over [" + str(a) + ", " + str(b) + ") returned " + str(r) + ", expected " + ideal.str(50)); return false; }
    return true;
}
template<class Real, class Mk> bool formsB(Mk mk, const Big& frac, const std::string& who, size_t nivs) { ++g_traces;
    // mk(f) calls f on an engine at its start and returns (value, values used)
    { br::uniform_01<Real> d; auto x = mk([&](auto& e) { return Real(d(e)); }); ++g_execs; ++g_states; if(!okB<Real>("uniform_01", who, x.first, 0, 1, frac, x.second)) return false; }
    { auto x = mk([&](auto& e) { typedef typename std::decay<decltype(e)>::type E; br::uniform_01<E&, Real> d(e); return Real(d()); }); ++g_execs; ++g_states; if(!okB<Real>("uniform_01<Engine&>", who, x.first, 0, 1, frac, x.second)) return false; }
    for(auto& i : ivsB<Real>()) { if(!nivs--) break;
        br::uniform_real_distribution<Real> d(i.a, i.b); auto x = mk([&](auto& e) { return Real(d(e)); }); ++g_execs; ++g_states; if(!okB<Real>("uniform_real_distribution", who, x.first, i.a, i.b, frac, x.second)) return false;
        br::uniform_real_distribution<Real> o(5, 6); typename br::uniform_real_distribution<Real>::param_type pm(i.a, i.b); auto y = mk([&](auto& e) { return Real(o(e, pm)); }); if(y != x) { fail("param", who + ": per-call bounds give another value"); return false; }
        boost::uniform_real<Real> l(i.a, i.b); y = mk([&](auto& e) { return Real(l(e)); }); if(y != x) { fail("uniform_real", who + ": uniform_real gives another value"); return false; } }
    return true; }
static std::vector<uint64_t> offB(uint64_t s) { std::set<uint64_t> v; for(uint64_t d = 0; d < 3; ++d) for(u128 x : {u128(d), u128(s) - d, u128(s) / 2 + d, u128(s) / 3 - d}) if(x <= s) v.insert((uint64_t)x); for(int b = 1; b < 64; b += 3) if((s >> b)) v.insert(s - (uint64_t(1) << b)); return std::vector<uint64_t>(v.begin(), v.end()); }
template<class Real, class U> void intsB() { UseTape u; for(u128 s1 : {u128(2), u128(3), u128(5), u128(256), u128(1000), u128(65536), u128(2147483646), u128(1) << 31, (u128(1) << 32) - 1, u128(1) << 32, (u128(1) << 63) - 1, u128(1) << 63, u128(1) << 64}) { uint64_t s = (uint64_t)(s1 - 1); if(s > type_span<U>()) continue; for(U b : lows<U>(s)) { DynEng<U> e = dyn<U>(b, s); std::vector<uint64_t> vs; if(s < 1000) for(uint64_t v = 0; v <= s; ++v) vs.push_back(v); else vs = offB(s);
    for(uint64_t v : vs) { u.t.fn = [&, v](uint64_t) { return u.t.calls == 1 ? v : 0; }; if(!formsB<Real>([&](auto f) { u.t.calls = 0; u.t.log.clear(); Real r = f(e); return std::make_pair(r, (ull)u.t.calls); }, Big(v) / (Big(s) + 1), fmt("engine of %.0Lf values from %lld, offset %llu", (long double)s + 1, (ll)b, (ull)v), v % 7 == 0 || v == s ? 99 : 3)) return; } } } sample("all engine values of small ranges, boundary values of wide ranges"); }
template<class Real, class ER, int Bits> bool realsB1() { UseTape u; SReal<ER, Bits> e; uint64_t s = e.span(); for(uint64_t v : offB(s)) { u.t.fn = [&, v](uint64_t) { return u.t.calls == 1 ? v : 0; }; if(!formsB<Real>([&](auto f) { u.t.calls = 0; u.t.log.clear(); Real r = f(e); return std::make_pair(r, (ull)u.t.calls); }, Big(v) / (Big(s) + 1), fmt("engine of 2^%d reals, offset %llu", Bits, (ull)v), 99)) return false; } return true; }
// an engine that returns the user-defined real type itself: k / 2^100
template<class R> struct RealEngB { typedef R result_type; static const bool has_fixed_range = false; const std::vector<R>* s; size_t i = 0; R min BOOST_PREVENT_MACRO_SUBSTITUTION () const { return 0; } R max BOOST_PREVENT_MACRO_SUBSTITUTION () const { return 1; } R operator()() { ++g_trans; ++i; return i > s->size() ? R(0) : (*s)[i - 1]; } };
template<class Real, class ER> void realsB2() { std::vector<ER> vs{0, ldexp(ER(1), -100), ldexp(ER(1), -3), ER(1) / 2, 1 - ldexp(ER(1), -100), ER(1) - ldexp(ER(1), -54)}; vs.push_back(ldexp(floor(ldexp(ER(1), 100) / 3), -100)); for(const ER& v : vs) { std::vector<ER> s{v}; if(!formsB<Real>([&](auto f) { RealEngB<ER> e{&s}; Real r = f(e); return std::make_pair(r, (ull)e.i); }, big(v), "engine of big reals, value " + str(v), 99)) return; } }
template<class Real, class I> void bigints(const char* nm) { std::vector<I> spans; for(int s : {1, 2, 3, 4, 6, 255, 999}) spans.push_back(I(s)); for(int k : {31, 32, 63, 64, 65, 80, 100, 126}) for(int d : {-1, 0, 1}) spans.push_back(I((I(1) << k) + d)); if(std::numeric_limits<I>::is_bounded) { if(!std::numeric_limits<I>::is_signed) spans.push_back((std::numeric_limits<I>::max)()); } else spans.push_back(I((I(1) << 150) + 7));
    for(const I& s : spans) { std::vector<I> lo{I(0), I(7)}; if constexpr(std::numeric_limits<I>::is_signed) { lo.push_back(I(-1)); lo.push_back(I(-(s / 2))); if(s < (I(1) << 120) && std::numeric_limits<I>::is_bounded) lo.push_back((std::numeric_limits<I>::min)()); } if(std::numeric_limits<I>::is_bounded && s <= (std::numeric_limits<I>::max)()) lo.push_back(I((std::numeric_limits<I>::max)() - s));
        for(const I& b : lo) { if(std::numeric_limits<I>::is_bounded && b > 0 && s > (std::numeric_limits<I>::max)() - b) continue; std::vector<I> vs; if(s < 1000) for(I v = 0; v <= s; ++v) vs.push_back(v); else { vs = {I(0), I(1), I(2), I(s / 2), I(s / 3), I(s - 1), I(s)}; for(int k = 1; k < 126; k += 5) if((s >> k) > 0) vs.push_back(I(s - (I(1) << k))); }
            for(const I& v : vs) { std::vector<I> one{v}; if(!formsB<Real>([&](auto f) { BigEng<I> e{b, s, &one}; Real r = f(e); return std::make_pair(r, (ull)e.i); }, Big(v) / (Big(s) + 1), std::string(nm) + " engine of " + str(s) + "+1 values from " + str(b) + ", offset " + str(v), v == s ? 99 : 4)) return; } } } sample("big-integer engines: all values of small ranges, boundary values of wide ranges"); }
// built-in reals from big-integer engines
template<class Real, class I> void bigbuiltin() { for(int sp : {1, 2, 3, 4, 6, 255}) for(int lo : {0, 7}) for(int v = 0; v <= sp; ++v) { std::vector<I> one{I(v)}; auto mk = [&](auto f) { BigEng<I> e{I(lo), I(sp), &one}; Real r = f(e); ++g_execs; ++g_states; return std::make_pair(r, e.i); }; Real fr = Real(v) / Real(sp + 1); auto chk = [&](const char* w, std::pair<Real, size_t> x, Real a, Real b) { Real id = a + fr * (b - a); if(x.second != 1 || !(std::fabs(x.first - id) <= 4 * std::numeric_limits<Real>::epsilon() * std::max(std::fabs(a), std::fabs(b)))) { fail(std::string("builtin ") + w, fmt("engine of %d big integers from %d, offset %d: %s returned %.17g after %zu engine values, expected %.17g after 1", sp + 1, lo, v, w, (double)x.first, x.second, (double)id)); return false; } return true; };
        if(!chk("uniform_01", mk([&](auto& e) { return br::uniform_01<Real>()(e); }), 0, 1)) return; for(auto i : std::vector<std::pair<Real, Real>>{{0, 1}, {-1, 1}, {3, 10}}) { if(!chk("uniform_real_distribution", mk([&](auto& e) { return br::uniform_real_distribution<Real>(i.first, i.second)(e); }), i.first, i.second)) return; if(!chk("uniform_real", mk([&](auto& e) { return boost::uniform_real<Real>(i.first, i.second)(e); }), i.first, i.second)) return; }
        if constexpr(!std::is_same<Real, long double>::value) { br::bernoulli_distribution<Real> d(Real(0.5)); std::vector<I> w{I(v)}; (void)d; } ++g_traces; } }
// ---- generate_canonical
template<class Real, size_t Bits, class Mk> bool canonB(const Big& R, const std::vector<Big>& al, Mk mk, const std::string& who) { typedef std::numeric_limits<Real> L; int b = std::min<size_t>(Bits, L::digits); Big lim = pow(Big(2), b); size_t k = 1; for(Big m = R; m < lim; ++k) m *= R; double tot = std::pow((double)al.size(), (double)k); auto one = [&](const std::vector<size_t>& ix) { ++g_execs; ++g_states; std::pair<Real, size_t> x = mk(ix); Big ideal = 0; for(size_t i = 0; i < k; ++i) ideal = (ideal + al[ix[i]]) / R; if(x.second != k) { fail("canon-draws", who + fmt(" %zu bits: %zu engine values, expected %zu", Bits, x.second, k)); return false; } if(!(x.first >= 0 && x.first < 1)) { fail("canon-range", who + fmt(" %zu bits: returned ", Bits) + str(x.first)); return false; } if(!(abs(big(x.first) - ideal) <= 4 * k * big(L::epsilon()) * std::max(ideal, Big(pow(Big(2), -b))))) { fail("canon-value", who + fmt(" %zu bits: returned ", Bits) + str(x.first) + ", expected " + ideal.str(50)); return false; } return true; };
    std::vector<size_t> ix(k, 0); if(tot <= 3000) for(;;) { if(!one(ix)) return false; size_t i = 0; while(i < k && ++ix[i] == al.size()) ix[i++] = 0; if(i == k) break; } else for(size_t bg = 0; bg < al.size(); ++bg) for(size_t p1 = 0; p1 < k; ++p1) for(size_t v = 0; v < al.size(); ++v) for(size_t w = 0; w < al.size(); ++w) { std::fill(ix.begin(), ix.end(), bg); ix[p1] = v; ix[k - 1 - p1] = w; if(!one(ix)) return false; } ++g_traces; return true; }
template<class Real, size_t Bits> void canon_allB() { UseTape u;
    auto builtin = [&](auto tag, const char* nm) { typedef decltype(tag) U; for(u128 R : {u128(2), u128(3), u128(10), u128(256), u128(65535), u128(65536), u128(2147483646), u128(1) << 31, u128(1) << 32, u128(1) << 63, (u128(1) << 64) - 1, u128(1) << 64}) { if(R - 1 > type_span<U>()) continue; uint64_t s = (uint64_t)(R - 1); for(U lo : lows<U>(s)) { std::vector<uint64_t> al; for(uint64_t v : {uint64_t(0), s / 2 + 1, s}) if(std::find(al.begin(), al.end(), v) == al.end()) al.push_back(v); std::vector<Big> ab(al.begin(), al.end()); DynEng<U> e = dyn<U>(lo, s); if(!canonB<Real, Bits>(Big(s) + 1, ab, [&](const std::vector<size_t>& ix) { u.t.calls = 0; u.t.log.clear(); u.t.fn = [&](uint64_t) { return u.t.calls <= ix.size() ? al[ix[u.t.calls - 1]] : 0; }; Real r = br::generate_canonical<Real, Bits>(e); return std::make_pair(r, (size_t)u.t.calls); }, fmt("%s engine of %.0Lf values from %lld,", nm, (long double)s + 1, (ll)lo))) return false; } } return true; };
    if(!builtin(int16_t(), "int16") || !builtin(uint32_t(), "uint32") || !builtin(int64_t(), "int64") || !builtin(uint64_t(), "uint64")) return;
    auto bigi = [&](auto tag, const char* nm) { typedef decltype(tag) I; std::vector<I> spans{I(1), I(2), I(9), I((I(1) << 64) - 1), I(I(1) << 64), I((I(1) << 100) - 1), I((I(1) << 120) + 5)}; for(auto& s : spans) for(const I& lo : {I(0), I(5)}) { std::vector<I> al{I(0), I(1)}; if(s > 1) al.push_back(I(s / 2)), al.push_back(s); std::vector<Big> ab; for(auto& v : al) ab.push_back(Big(v)); if(!canonB<Real, Bits>(Big(s) + 1, ab, [&](const std::vector<size_t>& ix) { std::vector<I> sc; for(size_t i : ix) sc.push_back(al[i]); BigEng<I> e{lo, s, &sc}; Real r = br::generate_canonical<Real, Bits>(e); return std::make_pair(r, e.i); }, std::string(nm) + " engine of " + str(s) + "+1 values,")) return false; } return true; };
    if(!bigi(mp::uint128_t(), "uint128_t") || !bigi(mp::cpp_int(), "cpp_int")) return; }
// ---- bernoulli
template<class Real> void bernB() { UseTape u; uint64_t cur = 0; u.t.fn = [&](uint64_t) { return cur; }; for(uint64_t R : {2ULL, 3ULL, 7ULL, 10ULL, 64ULL, 255ULL}) for(int32_t lo : lows<int32_t>(R - 1)) { DynEng<int32_t> e = dyn<int32_t>(lo, R - 1); for(uint64_t k = 0; k <= R; ++k) for(int d = -1; d <= 1; ++d) { Real p = Real(k) / Real(R); if(d) p = p * (1 + d * std::numeric_limits<Real>::epsilon()); if(p < 0 || p > 1) continue; br::bernoulli_distribution<Real> dd(p); const br::bernoulli_distribution<Real> o(Real(1) / 4); typename br::bernoulli_distribution<Real>::param_type pm(p); uint64_t c = 0; for(cur = 0; cur < R; ++cur) { u.t.calls = 0; u.t.log.clear(); bool v = dd(e); ++g_execs; ++g_states; c += v; ull n = u.t.calls; u.t.calls = 0; if(o(e, pm) != v || u.t.calls != n || n != (p == 0 ? 0u : 1u)) { fail("bern-draws", fmt("engine of %llu values, offset %llu: per call differs or %llu engine values used, p=", (ull)R, (ull)cur, n) + str(p)); return; } } Big ideal = big(p) * Big(R); if(abs(ideal - Big(c)) > Big("1.0000001") || (p == 0 && c) || (p == 1 && c != R)) { fail("bern-count", fmt("engine of %llu values: %llu give true, p=", (ull)R, (ull)c) + str(p)); return; } ++g_traces; } } sample("every engine value for a grid of p"); }
template<class Real, class I> void bernI() { for(const I& s : {I(1), I(4), I((I(1) << 64) - 1), I(I(1) << 100)}) for(const I& lo : {I(0), I(9)}) for(int k = 0; k <= 16; ++k) { Real p = Real(k) / 16; br::bernoulli_distribution<Real> d(p); Big t = Big(p) * (Big(s) + 1), slack = 1 + 4 * t * Big(std::numeric_limits<Real>::epsilon()); std::vector<Big> at{Big(0), Big(floor(t - slack) - 1), Big(floor(t + slack) + 1), Big(s)}; for(auto& q : at) { if(q < 0 || q > Big(s)) continue; std::vector<I> sc{I(q)}; BigEng<I> e{lo, s, &sc}; bool v = d(e); ++g_execs; ++g_states; bool must = p == 1 || (p > 0 && q + 1 <= t - slack), not_ = p == 0 || (p < 1 && q >= t + slack); if((must && !v) || (not_ && v) || e.i != (p == 0 ? 0u : 1u)) { fail("bern-big", "engine of " + str(s) + "+1 big integers, p=" + fmt("%d/16: offset ", k) + q.str(40) + fmt(" returned %d after %zu values", (int)v, e.i)); return; } } ++g_traces; } }
// ---- the same law in the user-defined type as in long double, value by value, on engines whose values both types hold exactly
#if PROP == 8 || PROP == 14
struct One { std::string name; size_t params; std::vector<Big> extent; std::function<std::pair<std::vector<Big>, size_t>(size_t, const Vals&)> run; };
template<class X> void putB(std::vector<Big>& o, const X& x) { if constexpr(std::is_same<X, bool>::value || std::is_arithmetic<X>::value || std::is_same<X, Quad>::value) o.push_back(Big(x)); else for(auto& y : x) putB(o, y); }
struct Collect { std::vector<One> v; std::string ty; template<class D> void operator()(const std::string& name, const std::vector<typename D::param_type>& ps) { std::string n = name; size_t k = n.find(ty); if(k != std::string::npos) n.erase(k, ty.size()); std::vector<Big> ex; for(auto& p : ps) { Big m = 0; D d(p); std::vector<Big> z; putB(z, (d.min)()); putB(z, (d.max)()); for(auto& y : z) if(!(boost::multiprecision::isinf)(y) && abs(y) < Big("1e4000")) m = std::max(m, Big(abs(y))); ex.push_back(m); } v.push_back(One{n, ps.size(), ex, [ps](size_t i, const Vals& sc) { D d(ps[i]); SReal<double, 53> e; UseTape u; u.t.fn = [&](uint64_t) -> uint64_t { size_t q = u.t.calls - 1; if(q < sc.size()) return sc[q]; if(q > 20000) throw std::runtime_error("a draw does not end on ordinary values"); uint64_t z = (q + 1 - sc.size()) * 0x9e3779b97f4a7c15ULL; z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ULL; z = (z ^ z >> 27) * 0x94d049bb133111ebULL; return (z ^ z >> 31) >> 11; }; std::vector<Big> o; for(int j = 0; j < 2; ++j) { putB(o, d(e)); u.t.log.clear(); } return std::make_pair(o, (size_t)u.t.calls); }}); } };
template<int g> void lockstep() { Collect q, l; q.ty = "<quad>"; l.ty = "<long double>"; real_dists<g, Quad>(q, "<quad>"); real_dists<g, long double>(l, "<long double>");
    for(auto& a : q.v) for(auto& b : l.v) if(a.name == b.name) add(a.name, [a, b] { const uint64_t T = uint64_t(1) << 53; const Vals A{T / 7, T / 3 + T / 1000, T / 2 + 77, T / 5 * 3, T / 11 * 9, T / 100, T - T / 90, T / 4 * 3 - 12345, T / 512 * 300 + 999, T / 400, T - T / 1000000, T / 1000000}; int depth = 4; size_t n = thorough() ? A.size() : 8; std::vector<size_t> ix(depth, 0); Vals v(depth);
        if(a.params != b.params) { fail("params", "parameter lists differ"); return; }
        for(;;) { for(int i = 0; i < depth; ++i) v[i] = A[ix[i]]; for(size_t i = 0; i < a.params; ++i) { auto x = a.run(i, v), y = b.run(i, v); ++g_execs; ++g_states; auto say = [&] { std::string s = fmt("parameter set %zu, engine values (of 2^53)", i); for(uint64_t z : v) s += fmt(" %llu", (ull)z); return s; }; if(x.second != y.second || x.first.size() != y.first.size()) { fail("use", say() + fmt(": quad uses %zu engine values, long double %zu", x.second, y.second)); return; } for(size_t k = 0; k < x.first.size(); ++k) { Big d = abs(x.first[k] - y.first[k]), s = std::max(std::max(Big(abs(x.first[k])), Big(abs(y.first[k]))), a.extent[i]); if(!(d <= s * Big("1e-14") + Big("1e-16"))) { fail("value", say() + ": quad gives " + x.first[k].str(25) + ", long double " + y.first[k].str(25)); return; } } }
            int i = 0; while(i < depth && ++ix[i] == n) ix[i++] = 0; if(i == depth) break; } ++g_traces; }); }
static void sphereQ(int dim) { add(fmt("quad dim %d", dim), [dim] { const uint64_t F = ~0ULL, H = 1ULL << 63; const Vals A{0, H, 0x100, 0xff, F << 8, F, 0x2545F4914F6CDD1DULL, 3ULL << 62}; typedef br::uniform_on_sphere<Quad> D; int depth = 5; std::vector<size_t> ix(depth, 0); Vals v(depth);
    for(;;) { for(int i = 0; i < depth; ++i) v[i] = A[ix[i]]; ++g_execs; ++g_states; auto mk = [&](D& d) { UseTape u; u.t.fn = [&](uint64_t) -> uint64_t { size_t q = u.t.calls - 1; if(q < v.size()) return v[q]; if(q > 20000) throw std::runtime_error("a draw does not end on ordinary values"); uint64_t z = (q + 1 - v.size()) * 0x9e3779b97f4a7c15ULL; z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ULL; z = (z ^ z >> 27) * 0x94d049bb133111ebULL; return z ^ z >> 31; }; DynEng<uint64_t> e = dyn<uint64_t>(0, F); auto c = d(e); size_t n = u.t.calls; auto c2 = d(e); return std::make_tuple(c, n, c2); };
        D d(dim); auto r = mk(d); for(auto* c : {&std::get<0>(r), &std::get<2>(r)}) { Quad s = 0; for(auto& x : *c) s += x * x; if((int)c->size() != dim || dim == 0 ? (int)c->size() != dim : !(abs(sqrt(s) - 1) <= (24 + 2 * dim) * std::numeric_limits<Quad>::epsilon())) { std::string q = "engine values"; for(uint64_t z : v) q += fmt(" %llu", (ull)z); fail("unit", q + ": norm " + str(Quad(sqrt(s)))); return; } }
        D o(dim + 1); o.param(typename D::param_type(dim)); if(mk(o) != r) { fail("history", "the vector depends on the object's past"); return; }
        int i = 0; while(i < depth && ++ix[i] == A.size()) ix[i++] = 0; if(i == depth) break; } ++g_traces; sample(fmt("dim %d: all scripts of %d values over %zu", dim, depth, A.size())); }); }
#endif
MC_MAIN({
#if PROP == 3 && PART == 0
    add("quad from int16", [] { intsB<Quad, int16_t>(); }); add("quad from uint32", [] { intsB<Quad, uint32_t>(); }); add("quad from int64", [] { intsB<Quad, int64_t>(); }); add("quad from uint64", [] { intsB<Quad, uint64_t>(); });
    add("168-bit from uint32", [] { intsB<Deci, uint32_t>(); }); add("168-bit from int64", [] { intsB<Deci, int64_t>(); });
    add("quad from real engines", [] { realsB1<Quad, float, 24>() && realsB1<Quad, double, 53>() && realsB1<Quad, long double, 64>() && realsB1<Quad, double, 8>(); }); add("168-bit from real engines", [] { realsB1<Deci, double, 53>() && realsB1<Deci, long double, 64>(); });
    add("quad from quad engines", [] { realsB2<Quad, Quad>(); }); add("168-bit from 168-bit engines", [] { realsB2<Deci, Deci>(); });
#elif PROP == 3 && PART == 1
    add("quad from uint128_t", [] { bigints<Quad, mp::uint128_t>("uint128_t"); }); add("quad from int128_t", [] { bigints<Quad, mp::int128_t>("int128_t"); }); add("quad from cpp_int", [] { bigints<Quad, mp::cpp_int>("cpp_int"); });
    add("double from big integers", [] { bigbuiltin<double, mp::uint128_t>(); bigbuiltin<double, mp::int128_t>(); bigbuiltin<double, mp::cpp_int>(); }); add("float from big integers", [] { bigbuiltin<float, mp::uint128_t>(); bigbuiltin<float, mp::cpp_int>(); });
#elif PROP == 3 && PART == 2
    add("quad canonical", [] { canon_allB<Quad, 1>(); canon_allB<Quad, 53>(); canon_allB<Quad, 64>(); }); add("quad canonical 100..", [] { canon_allB<Quad, 100>(); canon_allB<Quad, 113>(); canon_allB<Quad, 200>(); });
    add("168-bit canonical", [] { canon_allB<Deci, 64>(); canon_allB<Deci, 168>(); });
#elif PROP == 4
    add("quad", [] { bernB<Quad>(); }); add("168-bit", [] { bernB<Deci>(); }); add("quad from big integers", [] { bernI<Quad, mp::uint128_t>(); bernI<Quad, mp::cpp_int>(); }); add("double from big integers", [] { bernI<double, mp::uint128_t>(); bernI<double, mp::cpp_int>(); });
#elif PROP == 8
    lockstep<PART + 1>();
#elif PROP == 14
    for(int d : {0, 1, 2, 3, 4, 5, 8}) sphereQ(d);
#endif
})
