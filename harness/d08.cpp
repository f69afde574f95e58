// D08: laws of the derived continuous distributions.
#include "cdraw.hpp"
#include <boost/random/gamma_distribution.hpp>
#include <boost/random/beta_distribution.hpp>
#include <boost/random/chi_squared_distribution.hpp>
#include <boost/random/non_central_chi_squared_distribution.hpp>
#include <boost/random/student_t_distribution.hpp>
#include <boost/random/fisher_f_distribution.hpp>
#include <boost/random/cauchy_distribution.hpp>
#include <boost/random/weibull_distribution.hpp>
#include <boost/random/extreme_value_distribution.hpp>
#include <boost/random/laplace_distribution.hpp>
#include <boost/random/lognormal_distribution.hpp>
#include <boost/random/triangle_distribution.hpp>
#include <boost/random/hyperexponential_distribution.hpp>
#include <boost/random/poisson_distribution.hpp>
using namespace mc; namespace br = boost::random;
// ---- one uniform value mapped by a function: the image of the uniform grid must follow the law ----
// cdf(x) and ccdf(x) (1 - cdf), both accurate where small; mono: the map is monotone, so tails are compared point by point
template<class D, class F, class G> static void mapped(const std::string& who, D d, F cdf, G ccdf, bool mono, LD eps) {
    Src s; const size_t N = size_t(1) << (thorough() ? 20 : 14); std::vector<LD> f; f.reserve(N); bool bad = false; br::uniform_01<typename D::result_type> u01; ++g_traces;
    for(size_t i = 0; i < N && !bad; ++i) { Vals v{uval((i + 0.5L) / N)}; LD x = s.draw(d, v); if(s.used != 1) { bad = true; fail("values", who + fmt(": a draw used %zu engine values", s.used)); } LD c = cdf(x); if(!(c >= 0 && c <= 1)) { bad = true; fail("support", who + fmt(": value %.18Lg outside the support", x)); } f.push_back(c); }
    if(bad) return; std::sort(f.begin(), f.end()); for(size_t i = 0; i < N; ++i) if(std::fabs(f[i] - (i + 0.5L) / N) > 1.6L / N + 64 * eps) { fail("law", who + fmt(": of %zu uniform engine values %zu give results at or below the quantile %.9Lg", N, i + 1, f[i])); return; }
    if(mono) for(int k = 1; k <= std::numeric_limits<typename D::result_type>::digits - 8; ++k) for(LD q : {1.0L, 1.37L, 1.81L}) for(bool low : {true, false}) { LD u = std::ldexp(q, -k); if(u > 0.5L) continue; Vals v{low ? uval(u) : 0 - uval(u)}; LD x = s.draw(d, v); s.s = v; LD uu = s.run([&](DynEng<uint64_t>& e) { return u01(e); }); LD p = low ? uu : 1 - uu; LD a = cdf(x), b = ccdf(x), best = std::min(std::fabs(a / p - 1), std::fabs(b / p - 1)); if(!(best < 256 * eps / p + 4096 * eps)) { fail("tail", who + fmt(": engine value at quantile %s%.6Lg gives %.18Lg whose tail probability is %.9Lg or %.9Lg", low ? "" : "1-", p, x, a, b)); return; } }
    sample(who);
}
template<class R> static void maps(const char* ty) { LD eps = std::numeric_limits<R>::epsilon(); const LD pi = std::acos(-1.0L); auto N = [&](const char* n, LD a, LD b, LD c = 0) { return std::string(n) + ty + fmt("(%Lg, %Lg, %Lg)", a, b, c); };
    for(R a : {R(1), R(0.5), R(2), R(3.5), R(10), R(0.2)}) for(R b : {R(1), R(0.25), R(40)}) mapped(N("weibull", a, b), br::weibull_distribution<R>(a, b), [=](LD x) -> LD { return x < 0 ? -1 : -std::expm1(-std::pow(x / b, (LD)a)); }, [=](LD x) { return std::exp(-std::pow(x / b, (LD)a)); }, true, eps * std::max((LD)1, (LD)a));
    for(R a : {R(0), R(1), R(-20), R(3)}) for(R b : {R(1), R(0.5), R(7)}) mapped(N("extreme_value", a, b), br::extreme_value_distribution<R>(a, b), [=](LD x) { return std::exp(-std::exp(-(x - a) / b)); }, [=](LD x) { return -std::expm1(-std::exp(-(x - a) / b)); }, true, eps * (4 + std::fabs(a / b)));
    for(R a : {R(0), R(1), R(-20), R(3)}) for(R b : {R(1), R(0.5), R(7)}) mapped(N("cauchy", a, b), br::cauchy_distribution<R>(a, b), [=](LD x) { LD z = (x - a) / b; return z < 0 ? std::atan(-1 / z) / pi : 1 - (z == 0 ? 0.5L : std::atan(1 / z) / pi); }, [=](LD x) { LD z = (x - a) / b; return z > 0 ? std::atan(1 / z) / pi : 1 - (z == 0 ? 0.5L : std::atan(-1 / z) / pi); }, true, std::max(eps, 2e-16L) * (1 + std::fabs(a / b)));
    static const R tri[][3] = {{0, R(0.5), 1}, {-1, 0, 1}, {0, 0, 1}, {0, 1, 1}, {2, 3, 10}, {2, 9, 10}, {-100, -99, -98.5}, {0, R(1e-3), 1}, {0, R(0.999), 1}, {-5, 5, 5}, {1000, 1000, 1001}}; for(auto& t : tri) { LD a = t[0], b = t[1], c = t[2]; mapped(N("triangle", a, b, c), br::triangle_distribution<R>(t[0], t[1], t[2]), [=](LD x) -> LD { LD sl = 4 * eps * std::max(std::fabs(a), std::fabs(c)); if(x < a - sl || x > c + sl) return -1; x = std::min(std::max(x, a), c); return x <= b && b > a ? (x - a) * (x - a) / ((c - a) * (b - a)) : c > b ? 1 - (c - x) * (c - x) / ((c - a) * (c - b)) : 1; }, [](LD) { return 0.0L; }, false, eps * (1 + std::max(std::fabs(a), std::fabs(c)) / (c - a) * 4)); } }
// ---- gamma and chi-squared: density of the accepted values ----
static LD lgam(LD x) { return std::lgamma(x); }
// log density of gamma(alpha) at x; log is taken of x exactly as the variate reports it
static LD logpdf(LD alpha, LD x) { return (alpha - 1) * std::log(x) - x - lgam(alpha); }
template<class D> static void gamma_law(const std::string& who, D d, LD alpha, LD scale) {
    Src s; LD eps = 2.3e-16L; ++g_traces; auto bad = [&](const char* k, const std::string& m) { fail(k, who + ": " + m); };
    if(alpha == 1) { br::exponential_distribution<typename D::result_type> ex; for(unsigned b = 0; b < 255; ++b) for(int g = 0; g < 64; ++g) { Vals v{layer(b, (g + 0.5L) / 64), 12345ULL << 40}; LD x = s.draw(d, v); size_t ux = s.used; LD y = s.draw(ex, v); if(s.used != ux || std::fabs(x - y * scale) > 4 * eps * x) { bad("law", fmt("value %.18Lg is not the exponential variate %.18Lg times the scale %Lg", x, y, scale)); return; } } return; }
    LD mass = 0; LD C = 0, lo = INF, hi = 0;
    if(alpha > 1) {
        const int G = thorough() ? 40000 : 3000; const LD h = std::ldexp(1.0L, -22);
        auto at = [&](LD u, uint64_t w, bool& ok) { LD x = s.draw(d, {uval(u), w}); ok = s.used == 2; return x / scale; };
        for(int i = 0; i < G; ++i) { LD u = (i + 0.5L) / G; bool ok, k1, k2; LD x = at(u, 0, ok); if(!ok) continue; if(!(x > 0)) { bad("support", fmt("value %.18Lg", x)); return; } lo = std::min(lo, x); hi = std::max(hi, x);
            LD x1 = at(u - h, 0, k1), x2 = at(u + h, 0, k2), x3 = at(u - 2 * h, 0, ok), x4; bool k4; x4 = at(u + 2 * h, 0, k4); if(!k1 || !k2 || !ok || !k4) continue; LD jac = std::fabs(8 * (x2 - x1) - (x4 - x3)) / (12 * h); if(std::fabs(x2 - x1) > std::fabs(x) * 0.01L || std::fabs(x2 - x1) < std::fabs(x) * 1e-9L) continue;
            uint64_t a = 0, b = ~0ULL; at(u, b, ok); LD len = 1; if(!ok) { while(b - a > 64) { uint64_t m = a + (b - a) / 2; at(u, m, ok); (ok ? a : b) = m; } len = std::ldexp((LD)b, -64); }
            for(uint64_t w : {uint64_t(len < 1 ? a / 2 : ~0ULL / 2), a / 16 * 15}) { LD xx = at(u, w, ok); if(!ok || xx != x) { bad("accept", fmt("the accepted values of the second uniform are not an initial part (first %.9Lf)", u)); return; } }
            LD pdf = std::exp(logpdf(alpha, x)) * jac; mass += pdf / G; if(pdf < 1e-12L || len < 1e-9L) continue; LD c = len / pdf; if(C == 0) C = c; if(std::fabs(c / C - 1) > 1e-6L) { bad("law", fmt("density at %.12Lg is %.12Lg times the gamma density, elsewhere %.12Lg", x, c, C)); return; } }
        if(C == 0 || std::fabs(mass - 1) > 0.02L) bad("coverage", fmt("the values reached carry probability %.6Lf, constant %Lg", mass, C));
    } else {
        // an exponential from layer 0, then the set of uniforms for which its image is accepted: either order of the two draws
        br::exponential_distribution<typename D::result_type> ex; LD X0 = s.draw(ex, {layer(0, 0.5L)}) * 2; const int G = thorough() ? 6000 : 500, U = 256; const LD dr = std::ldexp(1.0L, -22); int order = -1; LD masses[2] = {0, 0};
        { LD a = s.draw(d, {uval(0.01L), layer(0, 0.25L)}), b; size_t ua = s.used; b = s.draw(d, {uval(0.01L), layer(0, 0.26L)}); order = ua == 2 && a != b ? 0 : 1; }
        for(int g = 0; g < G; ++g) { LD r = (g + 0.5L) / G * (7.69711747L / X0), y = r * X0; auto at = [&](uint64_t u, LD rr, bool& ok) { Vals v; if(order == 0) v = {u, layer(0, rr)}; else v = {layer(0, rr), u}; LD x = s.draw(d, v); ok = s.used == 2; return x / scale; };
            // scan: runs of uniforms with the same outcome
            struct Run { uint64_t a, b; LD x; bool ok; }; std::vector<Run> runs; auto same = [&](const Run& q, uint64_t u) { bool ok; LD x = at(u, r, ok); return ok == q.ok && (!ok || x == q.x); };
            { bool ok; LD x = at(0, r, ok); runs.push_back({0, 0, ok ? x : 0, ok}); for(int i = 1; i <= U; ++i) { uint64_t u = i == U ? ~0ULL << 11 : (~0ULL / U) * i; while(!same(runs.back(), u)) { uint64_t a = runs.back().b, b = u; while(b - a > 2048) { uint64_t m = a + (b - a) / 2; (same(runs.back(), m) ? a : b) = m; } runs.back().b = b; LD xx = at(b, r, ok); runs.push_back({b, b, ok ? xx : 0, ok}); if(runs.size() > 12) { bad("accept", "too many acceptance intervals"); return; } } runs.back().b = u; } }
            if(runs.back().b >= ~0ULL << 11) runs.back().b = ~0ULL;
            for(auto& q : runs) if(q.ok) { bool o1, o2; uint64_t mid = q.a + (q.b - q.a) / 2; LD xa = at(mid, r - dr, o1), xb = at(mid, r + dr, o2), xc, xd; bool o3, o4; xc = at(mid, r - 2 * dr, o3); xd = at(mid, r + 2 * dr, o4); if(!o1 || !o2 || !o3 || !o4) continue; if(!(q.x >= 0)) { bad("support", fmt("value %.18Lg", q.x)); return; } LD jac = std::fabs(8 * (xb - xa) - (xd - xc)) / (12 * dr * X0), len = std::ldexp((LD)(q.b - q.a), -64); if(q.x < 1e-290L || len < 1e-7L) continue; LD c = std::exp(-y) * len / (std::exp(logpdf(alpha, q.x)) * jac); masses[q.x > 1] += std::exp(logpdf(alpha, q.x)) * jac * 7.69711747L / G; if(C == 0) C = c; if(std::fabs(c / C - 1) > 3e-6L) { bad("law", fmt("density at %.12Lg is %.12Lg times the gamma density, elsewhere %.12Lg", q.x, c, C)); return; } } }
        if(C == 0 || std::fabs(masses[0] + masses[1] - 1) > 0.01L) bad("coverage", fmt("the values reached carry probability %.6Lf, constant %Lg", masses[0] + masses[1], C));
    }
    sample(who);
}
// float and long double variates follow the double ones from the same engine values
template<class DR, class DD> static void follow(const std::string& who, DR a, DD b, LD tol, LD scale) { Src s, t; int n = 0, off = 0; br::exponential_distribution<double> ex; for(int i = 0; i < 64; ++i) for(int j = 0; j < 64; ++j) for(int k = 0; k < 3; ++k) { Vals v{layer(40 + i * 3, (j + 0.5L) / 64), layer(j * 3 + 20, (i + 0.5L) / 64), layer(30, 0.3L + 0.17L * k), layer(31, 0.4L), 3ULL << 61, 1ULL << 62}; if(std::numeric_limits<typename DR::result_type>::digits > 56) return; LD x = s.draw(a, v), y = t.draw(b, v); ++n; if(s.used != t.used || std::fabs(x - y) > tol * std::fabs(y) + tol * scale) ++off; } if(off > n / 500) fail("follow", who + fmt(": %d of %d values differ from the double variate by more than %Lg", off, n, tol)); }
// ---- compositions: the value is the stated function of independent variates drawn one after the other ----
static std::vector<Vals> grid() { std::vector<Vals> r; const int n = thorough() ? 10 : 5; static const unsigned bs[] = {1, 9, 200, 3, 64, 131, 17, 90, 254, 0}; for(int a = 0; a < n; ++a) for(int b = 0; b < n; ++b) for(int c = 0; c < n; ++c) for(int d = 0; d < n; ++d) r.push_back({layer(bs[a], (a + 0.4L) / n), layer(bs[(b + 1) % 10], (b + 0.55L) / n), layer(bs[(c + 2) % 10], (c + 0.3L) / n), layer(bs[(d + 3) % 10], (d + 0.7L) / n)}); return r; }
template<class D, class X, class Y, class F> static void composed(const std::string& who, D d, X x, Y y, F f, LD tol) {
    static const std::vector<Vals> gr = grid(); Src s; int order = 0; ++g_traces; for(auto& v : gr) { LD z = s.draw(d, v); size_t uz = s.used; bool ok[2]; LD w[2]; for(int o = 0; o < 2; ++o) { s.s = v; std::pair<LD, LD> p = s.run([&](DynEng<uint64_t>& e) -> std::pair<LD, LD> { LD a, b; if(o == 0) { a = x(e); b = y(e); } else { b = y(e); a = x(e); } return {a, b}; }); w[o] = f(p.first, p.second); ok[o] = s.used == uz && std::fabs(w[o] - z) <= tol * std::fabs(z) + tol * 1e-6L; } if(!ok[order]) { if(!order && ok[1] && &v == &gr[0]) { order = 1; continue; } fail("composition", who + fmt(": value %.15Lg, expected %.15Lg", z, w[order])); return; } }
    sample(who);
}
struct Nul { template<class E> LD operator()(E&) { return 0; } };
template<class R> struct Pc { R k, l; template<class E> LD operator()(E& e) { br::poisson_distribution<> p(l / R(2)); int n = p(e); br::chi_squared_distribution<R> c(k + R(2) * n); return c(e); } };
template<class R> static void comps(const char* ty) { LD eps = std::numeric_limits<R>::epsilon(), tol = 256 * eps; auto N = [&](const char* n, LD a, LD b = 0) { return std::string(n) + ty + fmt("(%Lg, %Lg)", a, b); }; br::normal_distribution<R> no; br::exponential_distribution<R> ex;
    for(R a : {R(0.5), R(1), R(2.5), R(8)}) for(R b : {R(0.3), R(1), R(4), R(2)}) { composed(N("beta", a, b), br::beta_distribution<R>(a, b), br::gamma_distribution<R>(a, 1), br::gamma_distribution<R>(b, 1), [](LD x, LD y) { return x / (x + y); }, tol); composed(N("fisher_f", a, b), br::fisher_f_distribution<R>(a, b), br::chi_squared_distribution<R>(a), br::chi_squared_distribution<R>(b), [=](LD x, LD y) { return (x / a) / (y / b); }, tol); }
    for(R n : {R(1), R(2), R(3), R(0.7), R(10), R(150)}) composed(N("student_t", n), br::student_t_distribution<R>(n), no, br::chi_squared_distribution<R>(n), [=](LD z, LD c) { return z / std::sqrt(c / n); }, tol);
    for(R m : {R(0), R(1), R(-3)}) for(R t : {R(1), R(0.25), R(4)}) { composed(N("lognormal", m, t), br::lognormal_distribution<R>(m, t), no, Nul(), [=](LD z, LD) { return std::exp(m + t * z); }, 8 * eps * (std::fabs((LD)m) + 40 * (LD)t + 4)); }
    for(R k : {R(1.5), R(2), R(3), R(20)}) for(R l : {R(0.5), R(3), R(50)}) composed(N("non_central_chi_squared", k, l), br::non_central_chi_squared_distribution<R>(k, l), no, br::chi_squared_distribution<R>(k - 1), [=](LD z, LD c) { return (z + std::sqrt((LD)l)) * (z + std::sqrt((LD)l)) + c; }, tol * 16);
    for(R k : {R(1), R(0.5), R(0.1)}) for(R l : {R(0.5), R(3), R(9), R(50)}) { composed(N("non_central_chi_squared", k, l), br::non_central_chi_squared_distribution<R>(k, l), Pc<R>{k, l}, Nul(), [](LD c, LD) { return c; }, tol); }
    // laplace: an exponential with an independent fair sign
    for(R m : {R(0), R(2), R(-30)}) for(R b : {R(1), R(0.2), R(9)}) { br::laplace_distribution<R> d(m, b); Src s; std::string who = N("laplace", m, b); ++g_traces; for(auto v : grid()) { v.resize(2); LD E = s.draw(ex, v); v.resize(s.used > 2 ? 2 : s.used); size_t ue = s.used; if(ue > 2) continue; auto sg = [&](uint64_t u) { Vals w(v); w.push_back(u); LD x = (s.draw(d, w) - m) / b; if(s.used != ue + 1 || std::fabs(std::fabs(x) - E) > 8 * eps * (E + std::fabs(m / b))) fail("composition", who + fmt(": value %.15Lg from the exponential %.15Lg", x, E)); return x < 0; }; if(E < 64 * eps * std::fabs(m / b)) continue; bool f0 = sg(0), f1 = sg(~0ULL << 40); if(f0 == f1) { fail("sign", who + ": the sign does not change"); break; } uint64_t a = 0, c = ~0ULL << 40; while(c - a > (1ULL << 41)) { uint64_t k = a + (c - a) / 2; (sg(k) == f0 ? a : c) = k; } if(std::fabs(std::ldexp((LD)c, -64) - 0.5L) > 1e-6L) { fail("sign", who + fmt(": one sign has probability %.9Lf", std::ldexp((LD)c, -64))); break; } for(int g = 1; g < 64; ++g) if(g != 32 && sg(~0ULL / 64 * g) != (g < 32 ? f0 : f1)) { fail("sign", who + ": the sign is not a half-half split"); break; } if(st().nfail) return; } }
}
// ---- hyperexponential: the phase has its probability and gives an exponential of its rate ----
template<class R> static void hyper(const char* ty) {
    LD eps = std::numeric_limits<R>::epsilon(); static const R rates[] = {R(1), R(7), R(0.1), R(23)}; br::exponential_distribution<R> ex; const unsigned B = 200; const LD F = 0.6L;
    std::vector<std::vector<R>> lists; for(int n = 1; n <= 4; ++n) { std::vector<int> ix(n); static const R al[] = {0, 1, 3, R(0.5)}; for(;;) { std::vector<R> p; R sum = 0; for(int i : ix) { p.push_back(al[i]); sum += al[i]; } if(sum > 0) lists.push_back(p); int k = 0; while(k < n && ++ix[k] == (n == 4 ? 3 : 4)) ix[k++] = 0; if(k == n) break; } }
    for(auto& p : lists) { size_t n = p.size(); LD tot = 0; for(R x : p) tot += x; std::vector<R> rt(rates, rates + n); typedef br::hyperexponential_distribution<R> D; typename D::param_type pm(p, rt); D forms[] = {D(p, rt), D(p.begin(), p.end(), rt.begin(), rt.end()), D(pm), D()}; forms[3].param(pm); std::string who = std::string("hyperexponential") + ty + " probabilities {"; for(R x : p) who += fmt(" %Lg", (LD)x); who += " }"; const D other;
        for(int form = 0; form < 5; ++form) { const D& d = forms[form % 4]; Src s; ++g_traces; uint64_t x0 = 0; const Vals tail{layer(B, F), 1ULL << 62}; LD E = s.draw(ex, tail); auto key = [&](uint64_t y) -> int { Vals v; v.push_back(x0); v.push_back(y); v.insert(v.end(), tail.begin(), tail.end()); if(n == 1 && form == 4) (void)0; auto go = [&]() -> LD { s.s = v; return s.run([&](DynEng<uint64_t>& e) -> LD { return form == 4 ? other(e, pm) : d(e); }); }; LD x = go(); for(int drop = 0; drop < 2; ++drop) { for(size_t i = 0; i < n; ++i) if(p[i] > 0 && std::fabs(x * rates[i] - E) < 64 * eps * E) return (int)i; v.erase(v.begin()); x = go(); } fail("phase", who + fmt(": value %.15Lg is no exponential %.15Lg of any phase's rate", x, E)); return -1; };
            std::vector<LD> prob(n, 0); bool ok = true; for(size_t c = 0; c < n && ok; ++c) { x0 = (uint64_t)((u128(1) << 64) / n * c + 4321); uint64_t y = 0; const uint64_t top = ~0ULL << 40, G = 32, step = top / G + 1; int cur = key(0); if(cur < 0) return; LD start = 0; std::function<void(uint64_t, uint64_t, int, int)> span = [&](uint64_t lo, uint64_t hi, int a, int b) { if(a == b || !ok) return; if(hi - lo <= 1ULL << 30) { prob[a] += (hi - start) / std::ldexp(1.0L, 64) / n; start = hi; cur = b; return; } uint64_t m = lo + (hi - lo) / 2; int k = key(m); if(k < 0) { ok = false; return; } span(lo, m, a, k); span(m, hi, k, b); }; for(uint64_t g = 0; g < G && ok; ++g) { uint64_t hi = std::min(top, (g + 1) * step); int b = key(hi); if(b < 0) return; span(y, hi, cur, b); y = hi; } prob[cur] += (std::ldexp(1.0L, 64) - start) / std::ldexp(1.0L, 64) / n; }
            for(size_t i = 0; i < n; ++i) if(std::fabs(prob[i] - p[i] / tot) > 1e-6L) { fail("phase law", who + fmt(" form %d: phase %zu has probability %.9Lf, expected %.9Lf", form, i, prob[i], p[i] / tot)); return; } } }
    // rates alone: equal probabilities, by every form
    for(size_t n = 1; n <= 4; ++n) { typedef br::hyperexponential_distribution<R> D; typedef typename D::param_type P; std::vector<R> rt(rates, rates + n), pr(n, R(1)); D ref(pr, rt); P pref(pr, rt); std::vector<D> ds; std::vector<P> ps; ds.push_back(D(rt)); ds.push_back(D(rt.begin(), rt.end())); ps.push_back(P(rt)); ps.push_back(P(rt.begin(), rt.end())); if(n == 2) { ds.push_back(D({rates[0], rates[1]})); ps.push_back(P({rates[0], rates[1]})); ds.push_back(D({R(1), R(1)}, {rates[0], rates[1]})); ps.push_back(P({R(1), R(1)}, {rates[0], rates[1]})); } for(auto& q : ps) { if(!(q == pref)) fail("parameter forms", std::string("hyperexponential") + ty + fmt(": parameters from %zu rates alone, form %zu, differ from equal probabilities", n, size_t(&q - &ps[0]))); LD sum = 0; for(R x : q.probabilities()) sum += x; if(std::fabs(sum - 1) > 8 * eps) fail("parameter forms", std::string("hyperexponential") + ty + fmt(": probabilities() of parameters from %zu rates alone sum to %Lg", n, sum)); ds.push_back(D(q)); } for(auto& q : ds) { auto eq = [&] { auto x = q.probabilities(), y = ref.probabilities(); if(x.size() != y.size() || q.rates() != ref.rates()) return false; for(size_t i = 0; i < x.size(); ++i) if(std::fabs((LD)x[i] - y[i]) > 8 * eps) return false; return true; }; if(!eq()) fail("forms", std::string("hyperexponential") + ty + fmt(": distribution from %zu rates alone, form %zu, differs from equal probabilities", n, size_t(&q - &ds[0]))); } }
    sample(std::string("hyperexponential") + ty);
}
MC_MAIN({
#if PART == 0
    add("maps<double>", [] { maps<double>("<double>"); }); add("maps<float>", [] { maps<float>("<float>"); }); add("maps<long double>", [] { maps<long double>("<long double>"); });
#elif PART == 1
    for(double a : {1.0, 1.001, 1.5, 2.0, 3.25, 10.0, 50.0, 400.0, 0.999, 0.7, 0.5, 0.25, 0.1, 0.05}) for(double b : {1.0, 3.0}) { std::string n = fmt("gamma<double>(%g, %g)", a, b); if(b == 3 && a != 2 && a != 0.5 && a != 1) continue; add(n.c_str(), [=] { gamma_law(n, br::gamma_distribution<double>(a, b), a, b); }); }
    for(double k : {1.0, 2.0, 3.0, 7.0, 0.5, 30.0}) { std::string n = fmt("chi_squared<double>(%g)", k); add(n.c_str(), [=] { gamma_law(n, br::chi_squared_distribution<double>(k), k / 2, 2); }); }
    for(double a : {1.0, 1.5, 10.0, 0.5, 0.1}) { std::string n = fmt("gamma<float>(%g)", a); add(n.c_str(), [=] { follow(n, br::gamma_distribution<float>((float)a, 2.5f), br::gamma_distribution<double>((float)a, 2.5), 2e-3L, a * 2.5L); follow(n, br::chi_squared_distribution<float>((float)a), br::chi_squared_distribution<double>((float)a), 2e-3L, a); }); }
#elif PART == 2
    add("compositions<double>", [] { comps<double>("<double>"); }); add("compositions<float>", [] { comps<float>("<float>"); });
#else
    add("compositions<long double>", [] { comps<long double>("<long double>"); });
    add("hyperexponential<double>", [] { hyper<double>("<double>"); }); add("hyperexponential<float>", [] { hyper<float>("<float>"); });
#endif
})
