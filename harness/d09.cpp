// D09: probability mass functions of the integer-valued distributions.
#include "cdraw.hpp"
#include <boost/random/binomial_distribution.hpp>
#include <boost/random/poisson_distribution.hpp>
#include <boost/random/geometric_distribution.hpp>
#include <boost/random/negative_binomial_distribution.hpp>
#include <boost/random/gamma_distribution.hpp>
using namespace mc; namespace br = boost::random;
// pmf: log probability of k, or -INF
typedef std::function<LD(long long)> Pmf;
static const uint64_t REJ = ~0ULL;
template<class D> struct Mass { Src s; D d; std::map<uint64_t, LD> p; LD rej = 0; bool two = false; uint64_t x0 = 0; explicit Mass(const D& dd) : d(dd) {}
    uint64_t out(std::initializer_list<uint64_t> l, size_t& used) { s.s = l; auto k = s.run([&](DynEng<uint64_t>& e) { return d(e); }); used = s.used; return (uint64_t)(long long)k; }
    uint64_t out1(uint64_t x) { size_t u; uint64_t k = out({x}, u); return u == 1 ? k : REJ; }   // REJ: more values needed
    uint64_t out2(uint64_t y) { size_t u; uint64_t k = out({x0, y}, u); return u <= 2 ? k : REJ; }
    template<class F> void sweep(F f, unsigned G, uint64_t bits, const std::function<void(uint64_t, LD, uint64_t)>& add) { // piecewise constant function of one engine value
        const uint64_t top = ~0ULL << bits; uint64_t lo = 0, cur = f(0), start = 0; auto close = [&](uint64_t at, uint64_t nx) { add(cur, std::ldexp((LD)(at - start), -64), start); start = at; cur = nx; }; std::function<void(uint64_t, uint64_t, uint64_t, uint64_t)> span = [&](uint64_t a, uint64_t b, uint64_t fa, uint64_t fb) { if(fa == fb) return; if(b - a <= (1ULL << bits)) { close(b, fb); return; } uint64_t m = a + (b - a) / 2, fm = f(m); span(a, m, fa, fm); span(m, b, fm, fb); };
        for(unsigned g = 1; g <= G; ++g) { uint64_t hi = g == G ? top : (uint64_t)((u128(1) << 64) / G * g); uint64_t fb = f(hi); span(lo, hi, cur, fb); lo = hi; } add(cur, (std::ldexp(1.0L, 64) - start) / std::ldexp(1.0L, 64), start); }
    // integral of f over [x, x + w): composite four-point Gauss rule
    template<class F> static LD integral(LD x, LD w, unsigned n, F f) { static const LD q[4] = {-0.8611363115940525752L, -0.3399810435848562648L, 0.3399810435848562648L, 0.8611363115940525752L}, c[4] = {0.3478548451374538574L, 0.6521451548625461426L, 0.6521451548625461426L, 0.3478548451374538574L}; LD r = 0, h = w / n; for(unsigned i = 0; i < n; ++i) for(int j = 0; j < 4; ++j) r += c[j] / 2 * h * f(x + h * (i + 0.5L + q[j] / 2)); return r; }
    // p: probability per round; rej: probability of another round.  A first value that is not enough either fixes the candidate (the
    // second value then decides whether it is kept) or is the deciding value of a candidate that the second value fixes.
    bool measure(unsigned G, unsigned n, std::string& err) { uint64_t a = 0; bool any = false; sweep([&](uint64_t x) { return out1(x); }, G, bits, [&](uint64_t k, LD w, uint64_t at) { if(k == REJ) { if(!any) a = at; any = true; } else { if(any) { err = "first values that suffice lie above first values that do not"; } p[k] += w; } }); if(!err.empty()) return false; if(!any) return true; two = true;
        const uint64_t top = ~0ULL << bits; auto dep = [&](uint64_t x) { x0 = x; uint64_t k0 = REJ; for(unsigned i = 0; i < 256; ++i) { uint64_t k = out2(uval((i + 0.31L) / 256)); if(k == REJ) continue; if(k0 == REJ) k0 = k; else if(k != k0) return true; } return false; };
        uint64_t c = ~0ULL; auto unit = [](uint64_t x) { return std::ldexp((LD)x, -64); }; { LD l = unit(a), r = 1; uint64_t lo = a, hi = uval(l + (r - l) * 0.999L); bool dh = dep(hi), dl = dep(lo); if(dl) c = a; else if(!dh) { for(int i = 999; i > 0 && !dh; i -= 3) dh = dep(hi = uval(l + (r - l) * i / 1000)); } if(!dl && dh) { while(hi - lo > (1ULL << bits)) { uint64_t m = lo + (hi - lo) / 2; (dep(m) ? hi : lo) = m; } c = hi; } }
        // candidates fixed by the first value
        { LD A = unit(a), C = c == ~0ULL ? 1 : unit(c); std::vector<std::pair<LD, std::pair<LD, uint64_t>>> iv; auto f = [&](uint64_t x) { x0 = x < a ? a : x; return out2(1ULL << 24); }; uint64_t cur = f(a), start = a, lo = a; std::function<void(uint64_t, uint64_t, uint64_t, uint64_t)> span = [&](uint64_t x, uint64_t y, uint64_t fx, uint64_t fy) { if(fx == fy) return; if(y - x <= (1ULL << bits)) { iv.push_back({unit(start), {unit(y), cur}}); start = y; cur = fy; return; } uint64_t m = x + (y - x) / 2, fm = f(m); span(x, m, fx, fm); span(m, y, fm, fy); }; uint64_t end = c == ~0ULL ? top : c - (1ULL << bits); if(C > A) { for(unsigned g = 1; g <= G; ++g) { uint64_t hi = g == G ? end : a + (uint64_t)((u128)(end - a) * g / G); uint64_t fb = f(hi); span(lo, hi, cur, fb); lo = hi; } iv.push_back({unit(start), {C, cur}}); }
            for(auto& i : iv) { if(i.second.second == REJ) continue; LD w = i.second.first - i.first; p[i.second.second] += integral(i.first, w, n, [&](LD x) -> LD { x0 = uval(x); auto acc = [&](uint64_t y) { uint64_t k = out2(y); if(k != REJ && k != i.second.second && w > 1e-6L) ++strange; return k != REJ; }; if(!acc(0)) return 0; if(acc(top)) return 1; uint64_t l = 0, h = top; while(h - l > (1ULL << bits)) { uint64_t m = l + (h - l) / 2; (acc(m) ? l : h) = m; } ++checks; if(checks % 8 == 0) for(int g = 1; g < 16; ++g) { uint64_t y = ~0ULL / 16 * g; if(acc(y) != (y < h) && !(y > l - (l >> 12) && y < h + (l >> 12))) ++strange; } return unit(h); }); } }
        // candidates fixed by the second value
        if(c != ~0ULL) { LD C = unit(c); x0 = c; std::vector<std::pair<LD, std::pair<LD, uint64_t>>> iv; sweep([&](uint64_t y) { x0 = c; return out2(y); }, 32 * G, bits, [&](uint64_t k, LD w, uint64_t at) { if(k != REJ) iv.push_back({unit(at), {w, k}}); });
            for(auto& i : iv) p[i.second.second] += integral(i.first, i.second.first, n, [&](LD yy) -> LD { uint64_t y = uval(yy); auto acc = [&](uint64_t x) { x0 = x; return out2(y) != REJ; }; if(!acc(c)) return 0; if(acc(top)) return 1 - C; uint64_t l = c, h = top; while(h - l > (1ULL << bits)) { uint64_t m = l + (h - l) / 2; (acc(m) ? l : h) = m; } ++checks; if(checks % 8 == 0) for(int g = 1; g < 16; ++g) { uint64_t x = c + (~0ULL - c) / 16 * g; if(acc(x) != (x < h) && !(x > l - (l >> 12) && x < h + (l >> 12))) ++strange; } return unit(h) - C; }); }
        LD s = 0; for(auto& q : p) s += q.second; rej = 1 - s; if(strange > checks / 50) { err = fmt("the kept values are no initial parts (%llu of %llu)", (ull)strange, (ull)checks); return false; } return true; } uint64_t strange = 0, checks = 0; unsigned bits = 12; };
template<class D> static void law(const std::string& who, const D& d, const Pmf& pmf, long long maxk, unsigned G1, unsigned G2, LD tol, LD tol2) {
    Mass<D> m(d); ++g_traces; m.bits = std::numeric_limits<typename D::input_type>::digits > 30 ? 12 : 41; std::string err; if(!m.measure(G1, G2, err)) { fail("shape", who + ": " + err); return; } LD A = 1 - m.rej; LD worst = 0;
    for(auto& q : m.p) { long long k = (long long)q.first; if(k < 0 || k > maxk) { fail("support", who + fmt(": value %lld has probability %Lg", k, q.second)); return; } }
    LD lim = m.two ? tol2 : tol; LD sum = 0; long long hi = m.p.empty() ? 0 : (long long)m.p.rbegin()->first; std::set<long long> ks; for(auto& q : m.p) ks.insert((long long)q.first); for(long long k = 0; k <= std::min(maxk, hi + 50); ++k) if(std::exp(pmf(k)) > lim) ks.insert(k);
    for(long long k : ks) { LD want = std::exp(pmf(k)), got = m.p.count((uint64_t)k) ? m.p[(uint64_t)k] / A : 0; sum += want; worst = std::max(worst, std::fabs(got - want)); if(!(std::fabs(got - want) <= lim * (m.two ? 1 : 1 + k))) { fail("law", who + fmt(": value %lld has probability %.12Lg, expected %.12Lg", k, got, want)); return; } }
    if(std::fabs(sum - 1) > 1e-6L + 100 * lim) fail("law", who + fmt(": the values with positive probability make up %.9Lf only", sum)); if(getenv("D09_SHOW")) fprintf(stderr, "%s worst %Lg limit %Lg two %d rej %Lg\n", who.c_str(), worst, lim, (int)m.two, m.rej);
    // a rejected round is forgotten
    if(m.two) { Src s; D c(d); for(int i = 0; i < 200; ++i) { uint64_t a = uval((i + 0.37L) / 200), b = uval((i * 7 % 200 + 0.71L) / 200); size_t u; m.out({a, b}, u); if(u <= 2) continue; Vals rest{uval((i * 13 % 200 + 0.2L) / 200), uval((i * 3 % 200 + 0.4L) / 200), uval(0.11L), uval(0.4L)}; auto k1 = s.draw(c, rest); size_t u1 = s.used; Vals v{a, b}; v.insert(v.end(), rest.begin(), rest.end()); auto k2 = s.draw(c, v); if(k1 != k2 || s.used != u1 + 2) { fail("rejected", who + fmt(": a rejected round changes a later draw from %lld (%zu values) to %lld (%zu)", (long long)k1, u1, (long long)k2, s.used)); return; } } }
    sample(who);
}
static LD lchoose(LD n, LD k) { return std::lgamma(n + 1) - std::lgamma(k + 1) - std::lgamma(n - k + 1); }
static Pmf binom(long long t, LD p) { return [=](long long k) -> LD { if(k < 0 || k > t) return -INF; if(p == 0) return k == 0 ? 0 : -INF; if(p == 1) return k == t ? 0 : -INF; return lchoose(t, k) + k * std::log(p) + (t - k) * std::log1p(-p); }; }
static Pmf pois(LD m) { return [=](long long k) -> LD { return k < 0 ? -INF : k * std::log(m) - m - std::lgamma((LD)k + 1); }; }
template<class I, class R> static void bin(const char* ty, long long t, R p) { bool f = std::numeric_limits<R>::digits < 30; LD npq = t * (LD)p * (1 - (LD)p); bool big = npq > 200; unsigned G1 = big ? 2048 : 512, G2 = thorough() ? 512 : 64; br::binomial_distribution<I, R> d((I)t, p); law(std::string("binomial") + ty + fmt("(%lld, %Lg)", t, (LD)p), d, binom(t, p), t, G1, G2, f ? 2e-5L : 2e-13L * (1 + t * 1e-3L), f ? 5e-6L : 2e-7L); }
template<class I, class R> static void poi(const char* ty, R m) { bool f = std::numeric_limits<R>::digits < 30; bool big = m > 200; unsigned G1 = big ? 2048 : 512, G2 = thorough() ? 512 : 64; br::poisson_distribution<I, R> d(m); law(std::string("poisson") + ty + fmt("(%Lg)", (LD)m), d, pois(m), 1LL << 40, G1, G2, f ? 2e-5L : 2e-13L, f ? 5e-6L : 2e-7L); }
template<class I, class R> static void geo(const char* ty, R p) { bool f = std::numeric_limits<R>::digits < 30; br::geometric_distribution<I, R> d(p); law(std::string("geometric") + ty + fmt("(%Lg)", (LD)p), d, [=](long long k) -> LD { return std::log((LD)p) + k * std::log1p(-(LD)p); }, 1LL << 40, thorough() ? 4096 : 256, 1, f ? 2e-6L : 1e-14L, 0); }
template<class I, class R> static void negbin(const char* ty, I k, R p) { br::negative_binomial_distribution<I, R> d(k, p); std::string who = std::string("negative_binomial") + ty + fmt("(%lld, %Lg)", (long long)k, (LD)p); Src s; ++g_traces; static const unsigned bs[] = {1, 9, 200, 3, 64, 131, 17, 90, 254, 0}; const int n = thorough() ? 10 : 6; std::set<long long> seen;
    for(int a = 0; a < n; ++a) for(int b = 0; b < n; ++b) for(int c = 0; c < n; ++c) for(int e = 0; e < n; ++e) { Vals v{layer(bs[a], (a + 0.4L) / n), layer(bs[(b + 1) % 10], (b + 0.55L) / n), layer(bs[(c + 2) % 10], (c + 0.3L) / n), layer(bs[(e + 3) % 10], (e + 0.7L) / n)}; long long x = (long long)s.draw(d, v); size_t ux = s.used; long long want; if(k == 0 || p == 1) want = 0, ux = s.used; else want = (long long)s.run([&](DynEng<uint64_t>& g) { br::gamma_distribution<R> ga(k, (1 - p) / p); br::poisson_distribution<I, R> po(ga(g)); return po(g); }); seen.insert(x); if(x != want || s.used != ux) { fail("composition", who + fmt(": %lld, expected the Poisson variate %lld whose mean is a gamma variate", x, want)); return; } }
    // mean and variance of the composition over the grid of quantiles of gamma and poisson are those of the law: checked through gamma (D08) and poisson (above)
    sample(who); }
#define ADD(...) add(fmt(__VA_ARGS__).c_str(), [=]
static void body() {
#if PART == 0
    for(double p : {0.0, 1e-6, 0.01, 0.1, 0.25, 0.4, 0.5, 0.5000001, 0.6, 0.75, 0.9, 0.99, 1.0}) for(long long t : {0LL, 1LL, 2LL, 5LL, 20LL, 100LL}) ADD("binomial<int,double>(%lld, %g)", t, p) { bin<int, double>("<int,double>", t, p); });
    for(double p : {0.1, 0.3, 0.5, 0.7, 0.9, 0.999}) ADD("binomial<int64,float>(%d, %g)", 60, p) { bin<long long, float>("<long long,float>", 60, (float)p); });
#elif PART == 1
    struct T { long long t; double p; }; for(T x : {T{30, 0.36}, T{21, 0.5}, T{21, 0.49}, T{22, 0.5}, T{43, 0.25}, T{44, 0.25}, T{110, 0.1}, T{108, 0.1}, T{24, 0.5}, T{40, 0.6}, T{1000, 0.02}, T{1000, 0.5}, T{1000, 0.9}, T{100000, 1e-4}, T{100000, 2e-4}, T{100000, 0.99985}, T{1000000, 1e-5}, T{400, 0.3}, T{3000, 0.5}, T{50, 0.3}}) ADD("binomial<int,double>(%lld, %g)", x.t, x.p) { bin<int, double>("<int,double>", x.t, x.p); });
    for(T x : {T{50, 0.3}, T{1000, 0.5}, T{1000, 0.01}}) ADD("binomial<long long,long double>(%lld, %g)", x.t, x.p) { bin<long long, long double>("<long long,long double>", x.t, x.p); });
#elif PART == 2
    for(double m : {1e-9, 0.001, 0.1, 0.5, 1.0, 2.5, 5.0, 9.0, 9.999, 10.0, 10.2, 11.0, 12.5, 15.0, 20.0, 30.0, 50.0, 90.0, 150.0, 400.0, 1000.0}) ADD("poisson<int,double>(%g)", m) { poi<int, double>("<int,double>", m); });
    for(double m : {0.5, 5.0, 10.0, 25.0, 80.0}) { ADD("poisson<int,float>(%g)", m) { poi<int, float>("<int,float>", (float)m); }); ADD("poisson<long,long double>(%g)", m) { poi<long, long double>("<long,long double>", m); }); }
#else
    for(double p : {0.5, 0.1, 0.01, 0.9, 0.99, 0.3, 0.7, 0.6321, 1e-3}) { ADD("geometric<int,double>(%g)", p) { geo<int, double>("<int,double>", p); }); ADD("geometric<long,float>(%g)", p) { geo<long, float>("<long,float>", (float)p); }); ADD("geometric<unsigned,long double>(%g)", p) { geo<unsigned, long double>("<unsigned,long double>", p); }); }
    for(double p : {0.5, 0.1, 0.01, 0.9, 0.3, 1.0}) for(int k : {0, 1, 2, 3, 10, 50}) { ADD("negative_binomial<int,double>(%d, %g)", k, p) { negbin<int, double>("<int,double>", k, p); }); if(k == 3) ADD("negative_binomial<long,float>(%d, %g)", k, p) { negbin<long, float>("<long,float>", k, (float)p); }); }
#endif
}
MC_MAIN({ body(); })
