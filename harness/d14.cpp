// D14: uniform_on_sphere.
#include "cdraw.hpp"
#include <boost/random/uniform_on_sphere.hpp>
#include <deque>
#include <list>
using namespace mc; namespace br = boost::random;
template<class T> struct SphEng { typedef T result_type; static const bool has_fixed_range = false; T mn, mx; const Vals* s; size_t i = 0; T min BOOST_PREVENT_MACRO_SUBSTITUTION () const { return mn; } T max BOOST_PREVENT_MACRO_SUBSTITUTION () const { return mx; } T operator()() { ++g_trans; uint64_t span = (uint64_t)mx - (uint64_t)mn, v; if(i < s->size()) v = (*s)[i]; else { if(i > s->size() + 20000) throw std::runtime_error("a draw does not end on ordinary values"); uint64_t z = (i - s->size() + 1) * 0x9e3779b97f4a7c15ULL; z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ULL; z = (z ^ z >> 27) * 0x94d049bb133111ebULL; z ^= z >> 31; v = span == ~0ULL ? z : z % (span + 1); } ++i; return T(mn + T(v)); } };
template<class C> std::string unit(const C& c, int dim) { typedef typename C::value_type R; if((int)std::distance(c.begin(), c.end()) != dim) return fmt("%d components", (int)std::distance(c.begin(), c.end())); LD s = 0; for(R v : c) { if(v != v) return "a NaN component"; s += (LD)v * v; } if(dim && !(std::fabs(std::sqrt(s) - 1) <= (24 + 2 * dim) * (LD)std::numeric_limits<R>::epsilon())) return fmt("norm %.20Lg", std::sqrt(s)); return ""; }
template<class C> std::vector<typename C::value_type> vec(const C& c) { return std::vector<typename C::value_type>(c.begin(), c.end()); }
// every script over the alphabet: unit vectors, the same by every route, whatever was drawn before
template<class R, class C, class T> static void scripts(const std::string& ty, T mn, T mx, std::vector<uint64_t> A, int dim, int depth, const char* en) { add(fmt("%s dim %d %s", ty.c_str(), dim, en), [=] { typedef br::uniform_on_sphere<R, C> D; std::vector<size_t> ix(depth, 0); Vals v(depth);
    for(;;) { for(int i = 0; i < depth; ++i) v[i] = A[ix[i]]; ++g_execs; ++g_states; std::string h; ctx("dim %d", dim);
        SphEng<T> e{mn, mx, &v}; D d(dim); std::vector<R> x = vec(d(e)); std::string w = unit(x, dim); auto say = [&] { std::string s = "engine values"; for(uint64_t q : v) s += fmt(" %llu", (ull)q); return s + ": "; }; if(!w.empty()) { fail("unit", say() + w); return; }
        { SphEng<T> f{mn, mx, &v}; D o(dim == 5 ? 2 : 5); Vals none; SphEng<T> g{mn, mx, &none}; o(g); typename D::param_type p(dim); if(vec(o(f, p)) != x || f.i != e.i) { fail("per-call", say() + "drawing with parameters gives another vector"); return; } f.i = 0; o.param(p); if(vec(o(f)) != x || f.i != e.i) { fail("history", say() + "after draws in another dimension the vector differs"); return; } }
        std::vector<R> y = vec(d(e)); w = unit(y, dim); if(!w.empty()) { fail("unit", say() + "second draw: " + w); return; } { Vals rest; D f(dim); size_t used = e.i; (void)used; SphEng<T> q{mn, mx, &v}; f(q); D k(f); SphEng<T> q2 = q; if(vec(f(q)) != y || vec(D(dim)(q2)) != y) { fail("history", say() + "the second vector depends on the first draw"); return; } }
        if(dim > 3) { SphEng<T> f{mn, mx, &v}; br::normal_distribution<R> n; std::vector<R> c; LD s; do { c.clear(); s = 0; for(int i = 0; i < dim; ++i) { c.push_back(n(f)); s += (LD)c[i] * c[i]; } } while(s == 0); for(int i = 0; i < dim; ++i) if(!(std::fabs(c[i] / std::sqrt(s) - x[i]) <= (8 + dim) * (LD)std::numeric_limits<R>::epsilon())) { fail("law", say() + fmt("component %d is %.20Lg, the normalised normal variates give %.20Lg", i, (LD)x[i], c[i] / std::sqrt(s))); return; } }
        int i = 0; while(i < depth && ++ix[i] == A.size()) ix[i++] = 0; if(i == depth) break; }
    ++g_traces; sample(fmt("%s dim %d: all scripts of %d values over %zu", ty.c_str(), dim, depth, A.size())); }); }
// all pairs of grid values: equal areas of the sphere get equal shares
template<class R> static void areas(const char* ty, int dim) { add(fmt("areas %s dim %d", ty, dim), [=] { const int M = thorough() ? 4096 : 1024; const int AZ = 24, ZB = dim == 2 ? 1 : 12; std::vector<double> cnt(AZ * ZB, 0); double n = 0; br::uniform_on_sphere<R> d(dim); const LD TAU = 2 * acosl(-1.0L);
    for(int i = 0; i < M; ++i) for(int j = 0; j < M; ++j) { Vals v{(uint64_t)(2 * i + 1) << (64 - (M == 1024 ? 11 : 13)), (uint64_t)(2 * j + 1) << (64 - (M == 1024 ? 11 : 13))}; SphEng<uint64_t> e{0, ~0ULL, &v}; const std::vector<R>& x = d(e); ++g_execs; if(e.i != 2) continue; ++g_states; n++; LD a = (atan2l(x[1], x[0]) / TAU + 0.5L) * AZ; int ai = std::min<int>(AZ - 1, (int)a), zi = dim == 2 ? 0 : std::min<int>(ZB - 1, (int)((x[2] + 1) / 2 * ZB)); cnt[zi * AZ + ai]++; }
    if(n < 0.5 * M * M) { fail("areas", fmt("only %.0f of %d pairs give a vector at once", n, M * M)); return; } for(size_t k = 0; k < cnt.size(); ++k) if(std::fabs(cnt[k] * cnt.size() / n - 1) > 0.04) { fail("areas", fmt("part %zu of %zu equal parts of the sphere gets %.4f of its share", k, cnt.size(), cnt[k] * cnt.size() / n)); return; }
    // antipodal and axis symmetry of the accepted set, exactly
    double even = 0; for(int q = 0; q < AZ / 2; ++q) for(int z = 0; z < ZB; ++z) even = std::max(even, std::fabs(cnt[z * AZ + q] - cnt[z * AZ + q + AZ / 2])); if(even > 0.01 * n / cnt.size()) fail("symmetry", "opposite parts get different shares"); ++g_traces; sample(fmt("areas %s dim %d: %.0f accepted pairs", ty, dim, n)); }, 600); }
template<class R> static void line(const char* ty) { add(std::string("line ") + ty, [=] { // dimension 1: exactly half of the engine's values each way
    for(uint64_t span : {1ULL, 3ULL, 7ULL, 255ULL, 65535ULL}) { uint64_t neg = 0, pos = 0; br::uniform_on_sphere<R> d(1); for(uint64_t k = 0; k <= span; ++k) { Vals v{k}; SphEng<uint32_t> e{7, (uint32_t)(7 + span), &v}; const std::vector<R>& x = d(e); ++g_execs; ++g_states; if(x.size() != 1 || (x[0] != 1 && x[0] != -1)) { fail("line", "not a unit vector"); return; } (x[0] > 0 ? pos : neg)++; if(e.i != 1) { fail("line", "uses more than one value"); return; } } if(neg != pos) fail("line", fmt("engine of %llu values: %llu negative, %llu positive", (ull)span + 1, (ull)neg, (ull)pos)); } ++g_traces; }); }
template<class R> static void zero(const char* ty) { add(std::string("dim 0 ") + ty, [] { br::uniform_on_sphere<R> d(0); Vals v; SphEng<uint64_t> e{0, ~0ULL, &v}; if(!d(e).empty() || e.i || !(d.min)().empty() || !(d.max)().empty()) fail("zero", "dimension 0"); for(int n = 1; n <= 40; ++n) { br::uniform_on_sphere<R> q(n); if((int)(q.min)().size() != n || (int)(q.max)().size() != n) fail("range", "min or max of another dimension"); else { std::vector<R> lo(n), hi(n); lo[0] = -1; hi[0] = 1; if((q.min)() != lo || (q.max)() != hi) fail("range", fmt("dimension %d: min() or max() is not the first axis", n)); } ++g_execs; ++g_states; } ++g_traces; }); }
template<class R> static void type(const char* t) { std::string ty(t); typedef std::vector<R> V; const uint64_t H = 1ULL << 63, F = ~0ULL;
    // 0, the middle and its neighbours, the top, values whose normal variate is 0 or from the tail, plain ones
    const std::vector<uint64_t> A{0, H, H - 1, H + (1ULL << 40), F, 0x100, 5ULL << 61, 0xff, F << 8, 3ULL << 62, 0x2545F4914F6CDD1DULL}, B{0, 0x100, F << 8, 0x2545F4914F6CDD1DULL, 0xff, H}, B3{0, 0x100, F - 5};
    for(int dim : {1, 2, 3}) scripts<R, V, uint64_t>(ty, 0, F, A, dim, thorough() ? 6 : 5, "64-bit"); for(int dim : {4, 5, 6}) scripts<R, V, uint64_t>(ty, 0, F, B, dim, thorough() ? 8 : 6, "64-bit"); for(int dim : {4, 6, 10}) scripts<R, V, uint64_t>(ty, 0, F, B3, dim, thorough() ? 13 : 9, "64-bit runs"); for(int dim : {7, 8, 9, 16, 50}) scripts<R, V, uint64_t>(ty, 0, F, B, dim, 3, "64-bit");
    const std::vector<uint64_t> C{0, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100, 0xff, 0xdeadbeef, 0x60000000}; for(int dim : {1, 2, 3, 4, 7}) scripts<R, V, uint32_t>(ty, 0, 0xffffffffu, C, dim, 4, "32-bit");
    const std::vector<uint64_t> Dd{0, 1, 0x3ffffffe, 0x3fffffff, 0x7ffffffd, 255, 256, 12345678}; for(int dim : {1, 2, 3, 4, 7}) scripts<R, V, uint32_t>(ty, 1, 2147483646u, Dd, dim, 4, "31-bit"); const std::vector<uint64_t> Ee{0, 1, 127, 128, 255, 64, 90}; for(int dim : {1, 2, 3, 5}) scripts<R, V, uint32_t>(ty, 0, 255, Ee, dim, 5, "8-bit");
    for(int dim : {0, 1, 2, 3, 6}) { scripts<R, std::deque<R>, uint64_t>(ty + " deque", 0, F, B, dim, 2, "64-bit"); scripts<R, std::list<R>, uint64_t>(ty + " list", 0, F, B, dim, 2, "64-bit"); } }
MC_MAIN({
#if PART == 0
type<double>("double"); zero<double>("double"); line<double>("double");
#elif PART == 1
type<float>("float"); zero<float>("float"); line<float>("float"); areas<float>("float", 2); areas<float>("float", 3);
#else
type<long double>("long double"); zero<long double>("long double"); line<long double>("long double"); areas<double>("double", 2); areas<double>("double", 3); areas<long double>("long double", 3);
#endif
})
