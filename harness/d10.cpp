// D10: every draw ends and stays in the documented support, for every engine output sequence built from extreme values.
#define DISTS_LD
#include "dists.hpp"
using namespace mc;
// engine whose first values are scripted, ordinary afterwards
template<class T> struct ScrEng { typedef T result_type; static const bool has_fixed_range = false; T mn, mx; const std::vector<uint64_t>* s; size_t i; T min BOOST_PREVENT_MACRO_SUBSTITUTION () const { return mn; } T max BOOST_PREVENT_MACRO_SUBSTITUTION () const { return mx; }
    T operator()() { uint64_t span = (uint64_t)mx - (uint64_t)mn, v; ++g_trans; if(i < s->size()) v = (*s)[i]; else { if(i > s->size() + 20000) throw std::runtime_error("a draw does not end on ordinary values"); uint64_t z = (i - s->size() + 1) * 0x9e3779b97f4a7c15ULL; z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ULL; z = (z ^ z >> 27) * 0x94d049bb133111ebULL; z ^= z >> 31; v = span == ~0ULL ? z : z % (span + 1); } ++i; return T(mn + T(v)); } };
// support and check of one value
template<class V> std::string why(V x, V lo, V hi) { if constexpr(!std::numeric_limits<V>::is_integer) { if(x != x) return "NaN"; V inf = std::numeric_limits<V>::infinity(); if(x == inf || x == -inf) return fmt("%Lg", (LD)x); if(!(x >= lo && x <= hi)) return fmt("%.20Lg, outside [%.20Lg, %.20Lg]", (LD)x, (LD)lo, (LD)hi); } else { if(!(x >= lo && x <= hi)) return fmt("%Lg, outside [%Lg, %Lg]", (LD)x, (LD)lo, (LD)hi); } return ""; }
template<class R> std::string why(const std::vector<R>& x, const std::vector<R>& lo, const std::vector<R>& hi) { if(x.size() != lo.size()) return "wrong number of components"; for(R v : x) { if(v != v) return "a NaN component"; if(!(v >= -1 - 4 * std::numeric_limits<R>::epsilon() && v <= 1 + 4 * std::numeric_limits<R>::epsilon())) return fmt("a component %Lg", (LD)v); } (void)hi; return ""; }
// documented supports
template<class D, class = void> struct Doc;
#define DOCR(d, lo, hi) template<class R> struct Doc<br::d<R>> { static std::pair<R, R> of(const typename br::d<R>::param_type& p) { (void)p; const R inf = std::numeric_limits<R>::infinity(); (void)inf; return {R(lo), R(hi)}; } };
#define DOCB(d) template<class R> struct Doc<d<R>> { static std::pair<R, R> of(const typename d<R>::param_type& p) { return {p.a(), p.b()}; } };
DOCR(normal_distribution, -inf, inf) DOCR(laplace_distribution, -inf, inf) DOCR(extreme_value_distribution, -inf, inf) DOCR(cauchy_distribution, -inf, inf) DOCR(student_t_distribution, -inf, inf) DOCR(exponential_distribution, 0, inf) DOCR(weibull_distribution, 0, inf) DOCR(lognormal_distribution, 0, inf) DOCR(gamma_distribution, 0, inf) DOCR(chi_squared_distribution, 0, inf) DOCR(hyperexponential_distribution, 0, inf) DOCR(fisher_f_distribution, 0, inf) DOCR(non_central_chi_squared_distribution, 0, inf) DOCR(beta_distribution, 0, 1) DOCR(triangle_distribution, p.a(), p.c())
template<class R, class W> struct Doc<br::piecewise_constant_distribution<R, W>> { static std::pair<R, R> of(const typename br::piecewise_constant_distribution<R, W>::param_type& p) { return {p.intervals().front(), p.intervals().back()}; } };
DOCR(piecewise_linear_distribution, p.intervals().front(), p.intervals().back())
DOCB(br::uniform_int_distribution) DOCB(boost::uniform_int) DOCB(br::uniform_smallint) DOCB(br::uniform_real_distribution) DOCB(boost::uniform_real)
template<class R> struct Doc<br::bernoulli_distribution<R>> { static std::pair<bool, bool> of(const typename br::bernoulli_distribution<R>::param_type&) { return {false, true}; } };
#define DOCI(d, lo, hi) template<class I, class R> struct Doc<br::d<I, R>> { static std::pair<I, I> of(const typename br::d<I, R>::param_type& p) { (void)p; const I top = (std::numeric_limits<I>::max)(); (void)top; return {I(lo), I(hi)}; } };
DOCI(geometric_distribution, 0, top) DOCI(poisson_distribution, 0, top) DOCI(negative_binomial_distribution, 0, top) DOCI(binomial_distribution, 0, p.t()) DOCI(discrete_distribution, 0, p.probabilities().size() - 1)
template<class R> struct Doc<br::uniform_on_sphere<R>> { typedef std::vector<R> V; static std::pair<V, V> of(const typename br::uniform_on_sphere<R>::param_type& p) { V a(p.dim()), b(p.dim()); if(p.dim()) { a[0] = -1; b[0] = 1; } return {a, b}; } };
struct Case10 { 
    template<class D> void operator()(const std::string& name, std::vector<typename D::param_type> ps) { for(size_t k = 0; k < ps.size(); ++k) { auto p = ps[k]; add(name + fmt("#%zu", k), [=] { D d(p); auto doc = Doc<D>::of(p); if(!((d.min)() == doc.first && (d.max)() == doc.second)) fail("support", name + fmt(" #%zu: min() or max() is not the documented bound", k)); D e; e.param(p); if(!((e.min)() == doc.first && (e.max)() == doc.second)) fail("support", name + fmt(" #%zu: min() or max() is not the documented bound after param()", k)); run<D, uint64_t>(name + fmt(" #%zu", k), p, 0, ~0ULL); run<D, uint32_t>(name + fmt(" #%zu (32-bit engine)", k), p, 0, ~0U); run<D, uint32_t>(name + fmt(" #%zu (minstd range)", k), p, 1, 2147483646); }, 15); } }
    template<class D, class T> void run(const std::string& who, const typename D::param_type& p, T mn, T mx) {
        uint64_t S = (uint64_t)mx - mn; std::vector<uint64_t> A{0, 1, 255, S / 3, S / 2, S / 2 + 1, S - 255, S - 256, S - 1, S}, B = A; if(S == ~0ULL) { A.push_back(S << 11); A.push_back(S << 8); A.push_back(S << 40); A.push_back(uint64_t(1) << 40 | 255); A.push_back(1ULL << 63 | 0xff); A.push_back(2047); } if(DGROUP > 5) A = {0, 255, S / 3, S - 256, S}; B = A; for(int i = 1; i < 48; ++i) B.push_back((uint64_t)((u128)S * i / 48)); for(int b = 2; b < 64 && (S >> b); ++b) for(uint64_t q : {uint64_t(1) << b, (uint64_t(1) << b) - 1}) { B.push_back(q); B.push_back(S - q); }
        std::vector<uint64_t> s; ScrEng<T> e; e.mn = mn; e.mx = mx; e.s = &s; D proto(p); auto lo = (proto.min)(), hi = (proto.max)(); bool bad = false;
        auto go = [&] { if(bad) return; ++g_execs; ++g_states; D d(proto); e.i = 0; std::string t; auto list = [&] { for(size_t i = 0; i < s.size() && i < 12; ++i) t += fmt(" %llu", (ull)s[i]); if(s.size() > 12) t += fmt(" ... (%zu values)", s.size()); return t; }; ctx("%s: engine values%s", who.c_str(), list().c_str()); try { for(int r = 0; r < 3; ++r) { auto x = d(e); std::string w = why(x, lo, hi); if(!w.empty()) { bad = true; fail("support", who + ": value " + w + ", engine values (offsets from min)" + t); return; } } } catch(const std::exception& ex) { bad = true; fail("ends", who + ": " + ex.what() + ", engine values" + t); } };
        s.clear(); go(); for(uint64_t v : B) { s = {v}; go(); for(uint64_t w : A) { s = {v, w}; go(); s = {w, v}; go(); s = {S / 5, v, w}; go(); } }
        for(uint64_t a : A) for(uint64_t b : A) for(uint64_t c : A) { s = {a, b, c}; go(); if(thorough()) for(uint64_t d : A) { s = {a, b, c, d}; go(); } }
        for(uint64_t v : A) for(size_t n : {4, 5, 6, 7, 8, 9, 10, 16, 100, 1000}) { if(DGROUP > 5 && n > 16) break; s.assign(n, v); go(); for(uint64_t w : A) { s.assign(n, v); s.push_back(w); go(); if(n < 20) { s.clear(); for(size_t i = 0; i < n; ++i) s.push_back(i % 2 ? w : v); go(); } } }
        ++g_traces; sample(who);
    }
};

// parameters near the ends of their domains
template<class R, class F> void extremes(F& f, std::string ty) { typedef std::pair<R, R> T; constexpr bool big = std::numeric_limits<R>::max_exponent > 200; const R tiny = (std::numeric_limits<R>::min)(), huge = (std::numeric_limits<R>::max)(); (void)tiny; (void)huge; ty = " extreme" + ty; auto lim = [&](R d, R s) { return big ? d : s; }; (void)lim;
    if constexpr(DON(1)) {
        { typedef br::uniform_real_distribution<R> D; f.template operator()<D>("uniform_real_distribution" + ty, two<typename D::param_type, R>({T(0, tiny), T(0, huge), T(-huge / 2, huge / 2), T(-huge, 0), T(1, 1 + std::numeric_limits<R>::epsilon()), T(huge / 2, huge), T(-1, -1 + std::numeric_limits<R>::epsilon()), T(1 - std::numeric_limits<R>::epsilon(), 1), T(tiny, 2 * tiny)})); }
        { typedef br::triangle_distribution<R> D; PL<D> p; const R h = lim(R(1e100L), R(1e15L)); const R q[][3] = {{0, h / 2, h}, {-h, 0, h}, {0, 1, h}, {0, tiny, 1}, {1, 1 + std::numeric_limits<R>::epsilon(), 2}, {1, 1, 1 + std::numeric_limits<R>::epsilon()}, {-1 / h, 0, 1 / h}}; for(auto& x : q) p.push_back(typename D::param_type(x[0], x[1], x[2])); f.template operator()<D>("triangle" + ty, p); }
        { typedef br::exponential_distribution<R> D; f.template operator()<D>("exponential" + ty, one<typename D::param_type, R>({lim(R(1e290L), R(1e30L)), lim(R(1e-290L), R(1e-30L))})); }
        { typedef br::laplace_distribution<R> D; f.template operator()<D>("laplace" + ty, two<typename D::param_type, R>({T(huge / 100, huge / 1e7), T(0, tiny), T(-huge / 100, 1)})); }
        { typedef br::weibull_distribution<R> D; f.template operator()<D>("weibull" + ty, two<typename D::param_type, R>({T(lim(R(0.02L), R(0.1L)), 1), T(R(1e10L), 1), T(1, huge / 1000), T(1, tiny)})); }
        { typedef br::extreme_value_distribution<R> D; f.template operator()<D>("extreme_value" + ty, two<typename D::param_type, R>({T(huge / 100, huge / 1e7), T(0, tiny), T(-huge / 100, 1)})); }
        { typedef br::cauchy_distribution<R> D; f.template operator()<D>("cauchy" + ty, two<typename D::param_type, R>({T(lim(R(1e250L), R(1e20L)), lim(R(1e250L), R(1e20L))), T(0, tiny)})); } }
    if constexpr(DON(2)) {
        { typedef br::normal_distribution<R> D; f.template operator()<D>("normal" + ty, two<typename D::param_type, R>({T(huge / 100, huge / 1e7), T(0, tiny), T(-huge / 100, 1)})); }
        { typedef br::lognormal_distribution<R> D; f.template operator()<D>("lognormal" + ty, two<typename D::param_type, R>({T(lim(300, 40), 1), T(lim(-300, -40), 1), T(0, lim(30, 4))})); }
        { typedef br::gamma_distribution<R> D; f.template operator()<D>("gamma" + ty, two<typename D::param_type, R>({T(R(0.001L), 1), T(R(1e-6L), 1), T(tiny, 1), T(R(1e12L), 1), T(1 + std::numeric_limits<R>::epsilon(), 1), T(1 - std::numeric_limits<R>::epsilon() / 2, 1), T(2, lim(R(1e290L), R(1e30L))), T(2, lim(R(1e-290L), R(1e-30L))), T(lim(R(1e30L), R(1e15L)), 1)})); }
        { typedef br::chi_squared_distribution<R> D; f.template operator()<D>("chi_squared" + ty, one<typename D::param_type, R>({R(0.001L), tiny, R(1e12L), 2 + 4 * std::numeric_limits<R>::epsilon(), 2 - 2 * std::numeric_limits<R>::epsilon()})); }
        { typedef br::beta_distribution<R> D; f.template operator()<D>("beta" + ty, two<typename D::param_type, R>({T(R(1e-6L), R(1e-6L)), T(tiny, tiny), T(tiny, 1), T(1, tiny), T(R(1e12L), R(1e12L)), T(R(1e12L), R(0.001L)), T(R(0.001L), R(1e12L)), T(R(1e-6L), R(1e-3L))})); }
        { typedef br::hyperexponential_distribution<R> D; PL<D> p; auto P = [&](std::vector<R> a, std::vector<R> b) { p.push_back(typename D::param_type(a, b)); }; P({R(1e-9L), 1}, {R(1e-20L), R(1e20L)}); P({0, 1, 0}, {1, 2, 3}); f.template operator()<D>("hyperexponential" + ty, p); } }
    if constexpr(DON(3)) {
        { typedef br::fisher_f_distribution<R> D; f.template operator()<D>("fisher_f" + ty, two<typename D::param_type, R>({T(R(1e6L), R(1e6L)), T(R(0.01L), 1), T(1, R(1e10L)), T(R(1e10L), 1)})); }
        { typedef br::student_t_distribution<R> D; f.template operator()<D>("student_t" + ty, one<typename D::param_type, R>({R(0.5L), R(1e10L)})); }
        { typedef br::non_central_chi_squared_distribution<R> D; f.template operator()<D>("non_central_chi_squared" + ty, two<typename D::param_type, R>({T(R(0.5L), R(5e9L)), T(1, R(1e17L)), T(R(0.01L), R(0.001L)), T(20, R(1e10L)), T(1 + std::numeric_limits<R>::epsilon(), 1), T(R(1e10L), 1), T(R(0.001L), 19), T(1, R(4294967295.0L)), T(1, R(4294967296.0L) * 2)})); } }
    if constexpr(DON(4)) {
        { typedef br::bernoulli_distribution<R> D; f.template operator()<D>("bernoulli" + ty, one<typename D::param_type, R>({tiny, 1 - std::numeric_limits<R>::epsilon() / 2})); }
        { typedef br::geometric_distribution<long long, R> D; f.template operator()<D>("geometric<long long>" + ty, one<typename D::param_type, R>({R(1e-6L), lim(R(1e-15L), R(1e-7L)), 1 - std::numeric_limits<R>::epsilon() / 2, (sizeof(R) > 8 ? R(2e-15L) : std::numeric_limits<R>::epsilon())})); }
        { typedef br::binomial_distribution<int, R> D; PL<D> p; const std::pair<int, R> q[] = {{2147483647, tiny}, {2147483647, 1 - std::numeric_limits<R>::epsilon() / 2}, {1, tiny}, {10, 1 - std::numeric_limits<R>::epsilon() / 2}, {22, R(0.5)}, {21, R(0.5)}, {2147483647, R(5e-9L)}, {2147483647, R(4e-9L)}}; for(auto& x : q) p.push_back(typename D::param_type(x.first, x.second)); f.template operator()<D>("binomial<int>" + ty, p); }
        { typedef br::poisson_distribution<int, R> D; f.template operator()<D>("poisson<int>" + ty, one<typename D::param_type, R>({tiny, std::numeric_limits<R>::epsilon(), 2000000000, 10 - 8 * std::numeric_limits<R>::epsilon(), 10 + 8 * std::numeric_limits<R>::epsilon()})); }
        { typedef br::poisson_distribution<long long, R> D; f.template operator()<D>("poisson<long long>" + ty, one<typename D::param_type, R>({R(1e18L), R(4e9L)})); }
        { typedef br::negative_binomial_distribution<long long, R> D; PL<D> p; const std::pair<long long, R> q[] = {{1000000, R(0.9L)}, {5, R(1e-6L)}, {1, R(1e-9L)}, {5, 1 - std::numeric_limits<R>::epsilon() / 2}, {1000000000000LL, R(0.5L)}}; for(auto& x : q) p.push_back(typename D::param_type(x.first, x.second)); f.template operator()<D>("negative_binomial<long long>" + ty, p); } }
    if constexpr(DON(5)) {
        { typedef br::discrete_distribution<int, R> D; PL<D> p; auto P = [&](std::vector<R> w) { p.push_back(typename D::param_type(w)); }; P({huge, huge, huge}); P({tiny, tiny, 3 * tiny}); P({huge, tiny, 1}); P({tiny / 2, 0, tiny / 4}); P({std::numeric_limits<R>::denorm_min(), 0}); f.template operator()<D>("discrete<int>" + ty, p); }
        { typedef br::piecewise_constant_distribution<R> D; PL<D> p; auto P = [&](std::vector<R> b, std::vector<R> w) { p.push_back(typename D::param_type(b.begin(), b.end(), w.begin())); }; P({0, tiny, 1}, {1, 1}); P({-huge / 2, 0, huge / 2}, {1, 2}); P({1, 1 + std::numeric_limits<R>::epsilon(), 2}, {1, 1}); P({0, 1, 2}, {tiny, tiny}); f.template operator()<D>("piecewise_constant" + ty, p); }
        { typedef br::piecewise_linear_distribution<R> D; PL<D> p; auto P = [&](std::vector<R> b, std::vector<R> w) { p.push_back(typename D::param_type(b.begin(), b.end(), w.begin())); }; P({0, R(1e-6L), 1}, {1, 1, 0}); P({1, 1 + std::numeric_limits<R>::epsilon(), 2}, {1, 0, 1}); const R q = lim(R(1e100L), R(1e15L)); P({-q, 0, q}, {1, 2, 0}); P({0, 1, 2}, {q, 0, q}); f.template operator()<D>("piecewise_linear" + ty, p); } } }
MC_MAIN({ Case10 c; all_dists(c); if constexpr(DGROUP < 6) { extremes<double>(c, "<double>"); extremes<float>(c, "<float>"); extremes<long double>(c, "<long double>"); } })
