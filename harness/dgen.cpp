// D11, D12, D13: what holds of every distribution type.  One object of each type and parameter set, all pairs of parameter sets,
// all operation histories up to a depth; draws are compared on scripted engines.
#include <iomanip>
#if PROP == 12
#define DISTS_LD
#endif
#include "dists.hpp"
#ifndef PROP
#define PROP 11
#endif
using namespace mc;
// replayable engine: script first, then ordinary values; position observable
struct E64 { typedef uint64_t result_type; static const bool has_fixed_range = false; const Vals* s; uint64_t i = 0, salt = 0; static constexpr uint64_t min BOOST_PREVENT_MACRO_SUBSTITUTION () { return 0; } static constexpr uint64_t max BOOST_PREVENT_MACRO_SUBSTITUTION () { return ~0ULL; } uint64_t operator()() { ++g_trans; uint64_t k = i++; if(s && k < s->size()) return (*s)[k]; if(k > 300000) throw std::runtime_error("a draw does not end"); uint64_t z = (k + 1 + salt * 7919) * 0x9e3779b97f4a7c15ULL; z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ULL; z = (z ^ z >> 27) * 0x94d049bb133111ebULL; return z ^ z >> 31; } };
struct E32 { typedef uint32_t result_type; static const bool has_fixed_range = false; E64 e; static constexpr uint32_t min BOOST_PREVENT_MACRO_SUBSTITUTION () { return 1; } static constexpr uint32_t max BOOST_PREVENT_MACRO_SUBSTITUTION () { return 2147483646; } uint32_t operator()() { return 1 + e() % 2147483646; } };
template<class V> bool same(const V& a, const V& b) { return a == b || (a != a && b != b); }
template<class R> bool same(const std::vector<R>& a, const std::vector<R>& b) { return a == b; }
inline const std::vector<Vals>& scripts() { static const std::vector<Vals> s{{}, {0}, {~0ULL}, {1ULL << 63, 5}, {0, 0, 0}, {255, ~0ULL << 12, 1000}, {~0ULL - 255, 3ULL << 62}, {0x100, 0x4000000000000000ULL}}; return s; }
// do a and b (taken by value) draw the same n values and use the same engine values, on every script?
template<class D> std::string lockstep(const D& a0, const D& b0, int n) { for(size_t k = 0; k < scripts().size() + 2; ++k) { ++g_execs; D a(a0), b(b0); if(k < scripts().size()) { E64 x, y; x.s = y.s = &scripts()[k]; for(int i = 0; i < n; ++i) { typename D::result_type u = a(x), v = b(y); if(!same(u, v)) return fmt("draw %d differs", i + 1); if(x.i != y.i) return fmt("draw %d uses %llu engine values in total, the other %llu", i + 1, (ull)x.i, (ull)y.i); } } else { E32 x, y; x.e.s = y.e.s = nullptr; x.e.salt = y.e.salt = k; for(int i = 0; i < n; ++i) { typename D::result_type u = a(x), v = b(y); if(!same(u, v)) return fmt("draw %d differs", i + 1); if(x.e.i != y.e.i) return fmt("draw %d uses a different number of engine values", i + 1); } } } return ""; }
// Objects that keep a table of real weights hold normalised weights: their parameters are compared to rounding, everything else exactly.
template<class T, class = void> struct has_prob : std::false_type {}; template<class T> struct has_prob<T, decltype(void(std::declval<const T&>().probabilities()))> : std::true_type {};
template<class T, class = void> struct has_dens : std::false_type {}; template<class T> struct has_dens<T, decltype(void(std::declval<const T&>().densities()))> : std::true_type {};
template<class T, class = void> struct has_rates : std::false_type {}; template<class T> struct has_rates<T, decltype(void(std::declval<const T&>().rates()))> : std::true_type {};
template<class W> bool vclose(const std::vector<W>& u, const std::vector<W>& v) { if(u.size() != v.size()) return false; if constexpr(std::numeric_limits<W>::is_integer) return u == v; else { using std::fabs;  W m = 0; for(W x : u) m = std::max(m, x); for(size_t i = 0; i < u.size(); ++i) if(!(fabs(W(u[i] - v[i])) <= 16 * W(u.size()) * std::max<W>(std::numeric_limits<W>::epsilon(), (W)std::numeric_limits<double>::epsilon()) * m)) return false; return true; } }
template<class T> struct table : std::integral_constant<bool, has_prob<T>::value || has_dens<T>::value> {};
template<class T> bool eqv(const T& a, const T& b) { if constexpr(has_dens<T>::value) return a.intervals() == b.intervals() && vclose(a.densities(), b.densities()); else if constexpr(has_rates<T>::value) return a.rates() == b.rates() && vclose(a.probabilities(), b.probabilities()); else if constexpr(has_prob<T>::value) return vclose(a.probabilities(), b.probabilities()); else return a == b; }
template<class D> struct is_discrete : std::false_type {}; template<class I, class R> struct is_discrete<br::discrete_distribution<I, R>> : std::true_type {};
#if PROP == 11
struct Gen { template<class D> void operator()(const std::string& name, std::vector<typename D::param_type> ps) { add(name, [=] {
    for(size_t i = 0; i < ps.size(); ++i) { D di(ps[i]); if(!eqv(di.param(), ps[i])) { fail("param", name + fmt(" #%zu: param() is not the parameter given", i)); return; } D e; e.param(ps[i]); ++g_states; if(!eqv(e.param(), ps[i]) || !(e == di)) { fail("param", name + fmt(" #%zu: after param() the parameters differ from those of a constructed object", i)); return; } std::string w = lockstep(e, di, 5); if(!w.empty()) { fail("replace", name + fmt(" #%zu: parameters replaced by param(): ", i) + w); return; }
        for(size_t j = 0; j < ps.size(); ++j) { ++g_states; D r(ps[j]); E64 t0; t0.s = nullptr; r(t0); r.param(ps[i]); w = lockstep(r, di, 5); if(!w.empty() || !(r == di)) { fail("replace", name + fmt(" #%zu over #%zu: parameters replaced by param() after a draw: ", i, j) + w); return; }
            // per call
            for(size_t k = 0; k < scripts().size() + 1; ++k) { ++g_execs; D own(ps[j]), ref(ps[i]); own.reset(); auto run = [&](auto& x, auto& y, auto px, auto py) { for(int q = 0; q < 5; ++q) { typename D::result_type u = own(x, ps[i]), v = ref(y); ref = D(ps[i]); if(!is_discrete<D>::value && (!same(u, v) || px() != py())) { fail("per-call", name + fmt(" #%zu per call on an object of #%zu: draw %d differs or uses other engine values than an object constructed from it", i, j, q + 1)); return false; } if(is_discrete<D>::value && !(u >= (ref.min)() && u <= (ref.max)())) { fail("per-call", name + fmt(" #%zu per call: value out of range", i)); return false; } if(!(own == D(ps[j])) || !eqv(own.param(), ps[j])) { fail("own-param", name + fmt(" #%zu per call changes the parameters of an object of #%zu", i, j)); return false; } } return true; };
                if(k < scripts().size()) { E64 x, y; x.s = y.s = &scripts()[k]; if(!run(x, y, [&] { return x.i; }, [&] { return y.i; })) return; } else { E32 x, y; x.e.s = y.e.s = nullptr; if(!run(x, y, [&] { return x.e.i; }, [&] { return y.e.i; })) return; }
                // the object's own draws afterwards are its own
                std::string v = lockstep(own, D(ps[j]), 3); if(!v.empty()) { fail("own-param", name + fmt(" #%zu: draws after a per-call draw with #%zu: ", j, i) + v); return; } } } ++g_traces; }
    sample(name); }, 60); } };
#define EQ(x, v) if(!((x) == (v))) fail("accessor", std::string(#x) + " is not " #v)
#define ACC0(D, chk) { typedef D T; T d; typename T::param_type p; { auto& q = d; chk } { auto& q = p; chk } { auto q = d.param(); chk } }
#define ACC1(D, A, v, chk) { typedef D T; T d(v); typename T::param_type p(v); { auto& q = d; chk } { auto& q = p; chk } { auto q = d.param(); chk } { T e; e.param(p); auto& q = e; chk } if(!(d == T(p))) fail("ctor", std::string(#D) + ": constructed from values and from parameters differ"); std::string w = lockstep(d, T(p), 3); if(!w.empty()) fail("ctor", std::string(#D) + ": constructed from values and from parameters: " + w); }
#define ACC2(D, v1, v2, chk) { typedef D T; T d(v1, v2); typename T::param_type p(v1, v2); { auto& q = d; chk } { auto& q = p; chk } { auto q = d.param(); chk } { T e; e.param(p); auto& q = e; chk } if(!(d == T(p))) fail("ctor", std::string(#D) + ": constructed from values and from parameters differ"); std::string w = lockstep(d, T(p), 3); if(!w.empty()) fail("ctor", std::string(#D) + ": constructed from values and from parameters: " + w); }
#define C1(a, x) EQ(q.a(), x);
#define C2(a, x, b, y) EQ(q.a(), x); EQ(q.b(), y);
#define R2(D, a, da, b, db, xs, ys) { ACC0(D, C2(a, da, b, db)) { auto x = xs[0]; ACC1(D, a, x, C2(a, x, b, db)) } for(auto x : xs) for(auto y : ys) { ++g_states; ACC2(D, x, y, C2(a, x, b, y)) } }
#define R1(D, a, da, xs) { ACC0(D, C1(a, da)) for(auto x : xs) { ++g_states; ACC1(D, a, x, C1(a, x)) } }
template<class R> void accessors(const char* ty) { add(std::string("accessors") + ty, [=] {
    const std::vector<R> pos{R(0.1), R(1) / 3, 1, 2, R(7.3), R(123456.7)}, any{R(-0.1), 0, R(1) / 3, R(-1234.5), R(1e10)}, prob{0, R(0.1), R(1) / 3, R(0.5), R(0.9), 1}, in{R(0.1), R(1) / 3, R(0.5), R(0.9)}, hi{R(2e10), R(1e11)}; const std::vector<int> n{0, 1, 7, 1000000};
#if DGROUP == 1
    R2(br::uniform_real_distribution<R>, a, R(0), b, R(1), std::vector<R>({R(-0.1), 0, R(1) / 3}), std::vector<R>({R(0.5), R(1.1)})) R2(boost::uniform_real<R>, a, R(0), b, R(1), std::vector<R>({R(-0.1), 0, R(1) / 3}), std::vector<R>({R(0.5), R(1.1)})) R1(br::exponential_distribution<R>, lambda, R(1), pos) R2(br::laplace_distribution<R>, mean, R(0), beta, R(1), any, pos) R2(br::weibull_distribution<R>, a, R(1), b, R(1), pos, pos) R2(br::extreme_value_distribution<R>, a, R(1), b, R(1), any, pos) R2(br::cauchy_distribution<R>, median, R(0), sigma, R(1), any, pos)
    { typedef br::triangle_distribution<R> T; auto chk = [&](auto& q, R a, R b, R c) { EQ(q.a(), a); EQ(q.b(), b); EQ(q.c(), c); }; T d; chk(d, 0, R(0.5), 1); typename T::param_type p; chk(p, 0, R(0.5), 1); T d1(R(0.25)); chk(d1, R(0.25), R(0.5), 1); T d2(R(0.25), R(0.75)); chk(d2, R(0.25), R(0.75), 1); for(R a : any) for(R w : {R(0), R(0.3)}) { T d(a, a + w, a + w + 1); chk(d, a, a + w, a + w + 1); typename T::param_type p(a, a + w, a + w + 1); chk(p, a, a + w, a + w + 1); T e(p); chk(e, a, a + w, a + w + 1); if(!(e == d) || !lockstep(e, d, 3).empty()) fail("ctor", "triangle"); } }
#elif DGROUP == 2
    R2(br::normal_distribution<R>, mean, R(0), sigma, R(1), any, pos) R2(br::lognormal_distribution<R>, m, R(0), s, R(1), any, pos) R2(br::gamma_distribution<R>, alpha, R(1), beta, R(1), pos, pos) R1(br::chi_squared_distribution<R>, n, R(1), pos) R2(br::beta_distribution<R>, alpha, R(1), beta, R(1), pos, pos)
    { typedef br::hyperexponential_distribution<R> T; auto chk = [&](auto& q, std::vector<R> a, std::vector<R> b) { if(q.probabilities() != a || q.rates() != b) fail("accessor", "hyperexponential: probabilities or rates are not those given"); }; T d; chk(d, {1}, {1}); typename T::param_type p; chk(p, {1}, {1}); std::vector<R> a{R(0.25), R(0.25), R(0.5)}, b{3, R(0.1), 8}; T e(a, b); chk(e, a, b); EQ(e.num_phases(), 3u); typename T::param_type f(a, b); chk(f, a, b); T g(f); chk(g, a, b); T h(a.begin(), a.end(), b.begin(), b.end()); chk(h, a, b); T i(b); chk(i, {R(1) / 3, R(1) / 3, R(1) / 3}, b); T j(b.begin(), b.end()); chk(j, {R(1) / 3, R(1) / 3, R(1) / 3}, b); auto k = g.param(); chk(k, a, b); T l({R(0.25), R(0.75)}, {R(2), R(3)}); chk(l, {R(0.25), R(0.75)}, {2, 3}); T m{R(5), R(6)}; chk(m, {R(0.5), R(0.5)}, {5, 6}); if(!(e == g) || !lockstep(e, h, 3).empty() || !lockstep(e, g, 3).empty()) fail("ctor", "hyperexponential constructors differ"); }
#elif DGROUP == 3
    R2(br::fisher_f_distribution<R>, m, R(1), n, R(1), pos, pos) R1(br::student_t_distribution<R>, n, R(1), pos) R2(br::non_central_chi_squared_distribution<R>, k, R(1), lambda, R(1), pos, std::vector<R>({R(0.1), R(1) / 3, 1, R(77.7)})) { const std::vector<int> dims{0, 1, 2, 3, 9}; R1(br::uniform_on_sphere<R>, dim, 2, dims) }
#elif DGROUP == 4
    R1(br::bernoulli_distribution<R>, p, R(0.5), prob) { typedef br::geometric_distribution<int, R> G; typedef br::poisson_distribution<int, R> P; typedef br::binomial_distribution<int, R> B; typedef br::negative_binomial_distribution<int, R> N; R1(G, p, R(0.5), in) R1(P, mean, R(1), pos) R2(B, t, 1, p, R(0.5), n, prob) { const std::vector<int> ks{1, 2, 50}; R2(N, k, 1, p, R(0.5), ks, in) } }
#elif DGROUP == 5
    { typedef br::discrete_distribution<int, R> T; T d; typename T::param_type p0; if(d.probabilities() != std::vector<R>(1, R(1))) fail("accessor", "discrete: default probabilities"); EQ(p0.probabilities().size(), 1u); EQ((d.min)(), 0); EQ((d.max)(), 0); std::vector<R> w{1, 3, 0, 4}; T a(w), b(w.begin(), w.end()), c{R(1), R(3), R(0), R(4)}; typename T::param_type p(w); T e(p); for(auto& x : {a, b, c, e}) { auto v = x.probabilities(); if(v.size() != 4 || v[0] != R(0.125) || v[1] != R(0.375) || v[2] != 0 || v[3] != R(0.5)) fail("accessor", "discrete: probabilities() are not the normalised weights"); if(!(x == a) || !lockstep(x, a, 4).empty()) fail("ctor", "discrete: constructors differ"); } }
    { typedef br::piecewise_constant_distribution<R> T; typedef std::vector<R> V; auto chk = [&](auto q, V i, V de) { if(q.intervals() != i || q.densities().size() != de.size()) fail("accessor", "piecewise_constant: intervals"); else for(size_t k = 0; k < de.size(); ++k) if(std::fabs(q.densities()[k] - de[k]) > 4 * std::max<R>(std::numeric_limits<R>::epsilon(), (R)std::numeric_limits<double>::epsilon())) fail("accessor", "piecewise_constant: densities"); }; chk(T(), {0, 1}, {1}); chk(typename T::param_type(), {0, 1}, {1}); V i{-1, R(0.1), 3}, w{1, 3}; V de{R(0.25) / R(1.1), R(0.75) / R(2.9)}; T a(i, w), b(i.begin(), i.end(), w.begin()); chk(a, i, de); chk(b, i, de); chk(a.param(), i, de); typename T::param_type p(i, w); chk(p, i, de); T c(p); auto fw = [](R x) { return x < R(0.1) ? R(1) / R(1.1) : R(3) / R(2.9); }; (void)fw; if(!(a == b && b == c) || !lockstep(a, b, 4).empty() || !lockstep(a, c, 4).empty()) fail("ctor", "piecewise_constant: constructors differ"); T d({R(-1), R(0), R(2)}, [](R x) { return x + 3; }); chk(d, {-1, 0, 2}, {R(2.5) / R(6.5), R(2) / R(6.5)}); T e(4, R(0), R(8), [](R x) { return x; }); chk(e, {0, 2, 4, 6, 8}, {R(1) / 32, R(3) / 32, R(5) / 32, R(7) / 32}); }
    { typedef br::piecewise_linear_distribution<R> T; typedef std::vector<R> V; auto chk = [&](auto q, V i, V de) { if(q.intervals() != i || q.densities().size() != de.size()) fail("accessor", "piecewise_linear: intervals"); else for(size_t k = 0; k < de.size(); ++k) if(std::fabs(q.densities()[k] - de[k]) > 4 * std::numeric_limits<R>::epsilon()) fail("accessor", "piecewise_linear: densities"); }; chk(T(), {0, 1}, {1, 1}); chk(typename T::param_type(), {0, 1}, {1, 1}); V i{-1, 1, 3}, w{1, 3, 0}, de{R(1) / 7, R(3) / 7, 0}; T a(i, w), b(i.begin(), i.end(), w.begin()); chk(a, i, de); chk(b, i, de); chk(a.param(), i, de); typename T::param_type p(i, w); chk(p, i, de); T c(p); if(!(a == b && b == c) || !lockstep(a, b, 4).empty() || !lockstep(a, c, 4).empty()) fail("ctor", "piecewise_linear: constructors differ"); T d({R(0), R(1), R(2)}, [](R x) { return x; }); chk(d, {0, 1, 2}, {0, R(0.5), 1}); T e(4, R(0), R(8), [](R x) { return x; }); chk(e, {0, 2, 4, 6, 8}, {0, R(1) / 16, R(1) / 8, R(3) / 16, R(1) / 4}); }
#endif
    ++g_traces; }, 60); }
static void extra() {
#if DGROUP == 0
    add("accessors ints", [] { { typedef br::uniform_int_distribution<int> T; R2(T, a, 0, b, 2147483647, std::vector<int>({-5, 0, 3}), std::vector<int>({3, 77, 2147483647})) } { typedef br::uniform_int_distribution<unsigned char> T; ACC0(T, C2(a, 0, b, 255)) } { typedef br::uniform_int_distribution<long long> T; ACC0(T, C2(a, 0, b, 9223372036854775807LL)) } { typedef boost::uniform_int<int> T; R2(T, a, 0, b, 9, std::vector<int>({-5, 0, 3}), std::vector<int>({3, 77, 2147483647})) } { typedef br::uniform_smallint<int> T; R2(T, a, 0, b, 9, std::vector<int>({-5, 0, 3}), std::vector<int>({3, 77, 65535})) } });
#else
    if constexpr(DGROUP < 6) { accessors<double>("<double>"); accessors<float>("<float>"); accessors<long double>("<long double>"); }
#endif
}
#elif PROP == 12
template<class C, class A, class B> std::string trip(const A& a, B& b, const char* sep, int after) { std::basic_stringstream<C> s; s << std::setprecision(40) << a; std::basic_string<C> text = s.str(); { std::basic_istringstream<C> t(text); B c(b); t >> c; if(!t && !t.eof()) return "reading its own text fails (end of input right after it)"; if(t.fail()) return "reading its own text sets failbit (end of input right after it)"; if(!eqv(c, B(a))) return "text read back at the end of input gives another value"; } std::string sp(sep); text.append(sp.begin(), sp.end()); std::string n = fmt("%d", after); text.append(n.begin(), n.end()); text.push_back(C('x')); std::basic_istringstream<C> t(text); t >> b; if(!t) return "reading its own text fails"; int k = 0; t >> k; C x = 0; t >> x; if(!t || k != after || x != C('x')) return "reading disturbs what follows in the stream"; if(!eqv(b, B(a))) return "text read back gives another value"; return ""; }
struct Gen { template<class D> void operator()(const std::string& name, std::vector<typename D::param_type> ps) { typedef typename D::param_type P; constexpr bool wide = DGROUP < 6; add(name, [=] {
    for(size_t i = 0; i < ps.size(); ++i) { D a(ps[i]); if(i & 1) { E64 e; e.s = nullptr; a(e); }
        // its text cut at every blank, or with a letter for the rest: the read fails and the object keeps its parameters
        { std::ostringstream o; o << std::setprecision(40) << a; const std::string text = o.str(); D other(ps[(i + 1) % ps.size()]); for(size_t cut = 0; cut < text.size(); ++cut) if(!cut || text[cut] == ' ') for(const char* rest : {"", " x 1 1", " -", " . 2"}) { if(DGROUP > 5 && (rest[1] == 45 || rest[1] == 46)) continue; /* the number type itself reads those */ ++g_states; D b(other); std::istringstream t(text.substr(0, cut) + rest); t >> b; if(!t.fail()) { fail("cut", name + fmt(" #%zu: reading \"", i) + text.substr(0, cut) + rest + "\" succeeds"); return; } if(!(b == other) || !eqv(b.param(), other.param())) { fail("cut", name + fmt(" #%zu: reading \"", i) + text.substr(0, cut) + rest + "\" fails but changes the object"); return; } std::string w = lockstep(b, other, 2); if(!w.empty()) { fail("cut", name + fmt(" #%zu: after a failed read: ", i) + w); return; } } }
        for(size_t j = 0; j <= ps.size(); ++j) for(int m = 0; m < 2; ++m) { g_states += 2; ++g_execs; std::string w; D b = j < ps.size() ? D(ps[j]) : D(); if(m) { E64 e; e.s = nullptr; b(e); b(e); } ctx("%s #%zu over %zu", name.c_str(), i, j);
            for(const char* sep : {" ", "\n", "\n \t", "  "}) { D c(b); w = trip<char>(a, c, sep, -37); if(w.empty() && !eqv(c, a)) w = "objects differ"; if(w.empty() && (!table<D>::value || c == a)) { D f(a), g(c); w = lockstep(f, g, 4); } if(!w.empty()) { fail("dist-text", name + fmt(" #%zu read into #%zu: ", i, j) + w); return; } c = b; if constexpr(wide) w = trip<wchar_t>(a, c, sep, 512); if(!w.empty()) { fail("dist-wtext", name + fmt(" #%zu read into #%zu (wide stream): ", i, j) + w); return; } P p = j < ps.size() ? ps[j] : P(); w = trip<char>(ps[i], p, sep, 8); if(w.empty() && (!table<D>::value || p == ps[i])) { w = lockstep(D(p), D(ps[i]), 3); } if(!w.empty()) { fail("param-text", name + fmt(" parameters #%zu read into #%zu: ", i, j) + w); return; } p = j < ps.size() ? ps[j] : P(); if constexpr(wide) w = trip<wchar_t>(ps[i], p, sep, 8); if(!w.empty()) { fail("param-wtext", name + fmt(" parameters #%zu read into #%zu (wide stream): ", i, j) + w); return; } }
            if(j < ps.size()) { bool eq = i == j; if((a == b) != eq || (a != b) == eq) { if constexpr(!std::is_same<D, br::uniform_on_sphere<double>>::value) { fail("equal", name + fmt(" #%zu and #%zu: == or != is wrong", i, j)); return; } } if((ps[i] == ps[j]) != eq || (ps[i] != ps[j]) == eq) { fail("equal", name + fmt(" parameters #%zu and #%zu: == or != is wrong", i, j)); return; }
                // two objects one after the other in one stream
                std::stringstream s; s << std::setprecision(40) << a << ' ' << D(ps[j]) << '\n' << ps[j] << ' ' << ps[i]; D x, y; P p, q; s >> x >> y >> p >> q; if(!eqv(x, a) || !eqv(y, D(ps[j])) || !eqv(p, ps[j]) || !eqv(q, ps[i]) || s.fail()) { fail("sequence", name + fmt(" #%zu, #%zu and their parameters written one after the other are not read back", i, j)); return; } } } ++g_traces; }
    sample(name); }, 60); } };
// every weight list over a small alphabet: what is written is what is read
template<class W> static void weights(const char* ty) { add(std::string("weights") + ty, [=] { const std::vector<W> A{0, 1, 2, 3, 7, W(0.1L), W(1e-9L), W(1.0L / 3), 1000003}; size_t bad = 0; for(size_t n = 1; n <= (thorough() ? 6u : 4u); ++n) { std::vector<size_t> ix(n); for(;;) { std::vector<W> w; W sum = 0; for(size_t i : ix) { w.push_back(A[i]); sum += A[i]; } if(sum > 0) { ++g_states; ++g_execs; typedef br::discrete_distribution<int, W> D; D a(w), b; typename D::param_type p(w), q; std::string l; for(W x : w) l += fmt(" %.20Lg", (LD)x); std::string e = trip<char>(a, b, " ", 7); if(e.empty() && (a == b || std::is_integral<W>::value)) e = lockstep(a, b, 2); if(!e.empty()) { ++bad; fail("dist-text", std::string("discrete<int>") + ty + " with weights" + l + ": " + e); if(bad > 5) return; } e = trip<char>(p, q, " ", 7); if(!e.empty()) { ++bad; fail("param-text", std::string("discrete<int>") + ty + " parameters with weights" + l + ": " + e); if(bad > 5) return; }
        if(n <= 3 && std::is_floating_point<W>::value) if constexpr(std::is_floating_point<W>::value) { std::vector<W> iv; for(size_t i = 0; i <= n; ++i) iv.push_back(W(i * i) / 3 - 1); typedef br::piecewise_constant_distribution<W> P; P c(iv, w), d; e = trip<char>(c, d, " ", 7); if(e.empty() && (c == d || std::is_integral<W>::value)) e = lockstep(c, d, 2); if(!e.empty()) { ++bad; fail("dist-text", std::string("piecewise_constant") + ty + " with weights" + l + ": " + e); if(bad > 5) return; } if(n >= 2) { iv.pop_back(); typedef br::piecewise_linear_distribution<W> L; L f(iv, w), g; e = trip<char>(f, g, " ", 7); if(e.empty() && (f == g || std::is_integral<W>::value)) e = lockstep(f, g, 2); if(!e.empty()) { ++bad; fail("dist-text", std::string("piecewise_linear") + ty + " with weights" + l + ": " + e); if(bad > 5) return; } }
            typedef br::hyperexponential_distribution<W> H; std::vector<W> r; for(size_t i = 0; i < n; ++i) r.push_back(W(i + 1) / 3); H h(w, r), k; e = trip<char>(h, k, " ", 7); if(e.empty() && h == k) e = lockstep(h, k, 2); if(!e.empty()) { ++bad; fail("dist-text", std::string("hyperexponential") + ty + " with weights" + l + ": " + e); if(bad > 5) return; } } }
        size_t i = 0; while(i < n && ++ix[i] == A.size()) ix[i++] = 0; if(i == n) break; } } ++g_traces; }, 60); }
// parameters outside the documented domain: the read fails, distribution and parameters stay as they were
template<class D> static void reject(const std::string& name, const std::string& text, bool valid, const std::function<bool(const D&)>& is) { typedef typename D::param_type P; ++g_execs; ++g_states; D d; P p; const D d0; const P p0; std::istringstream s(text), t(text); s >> d; t >> p; if(valid) { if(s.fail() || t.fail()) fail("rejects", name + ": reading \"" + text + "\" fails"); else if(!is(d) || !is(D(p))) fail("rejects", name + ": \"" + text + "\" gives other parameters"); return; } if(!s.fail() || !t.fail()) fail("rejects", name + ": reading \"" + text + "\" succeeds"); else if(!(d == d0) || !(p == p0)) fail("rejects", name + ": reading \"" + text + "\" fails but changes the object"); }
template<class D, class T> static void rej_int(const char* name) { add(std::string("rejects ") + name, [=] { typedef std::numeric_limits<T> L; std::vector<long long> v{0, 1, 2, 5, 9, 10, 127, 128, 255, 256, 300, 32767, 32768, 65535, 65536, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL}; if(L::is_signed) for(long long x : {-1LL, -2LL, -128LL, -129LL, -32768LL, -32769LL, -2147483648LL, -2147483649LL}) v.push_back(x); for(long long a : v) for(long long b : v) { if(sizeof(T) == 1 && (a > 2147483647 || b > 2147483647 || a < -2147483648LL || b < -2147483648LL)) {} bool ok = a <= b && a >= (long long)(L::min)() && b <= (long long)std::min<unsigned long long>((L::max)(), 9223372036854775807ULL); if(a > (long long)std::min<unsigned long long>((L::max)(), 9223372036854775807ULL) || b < (long long)(L::min)()) ok = false; reject<D>(name, fmt("%lld %lld", a, b), ok, [=](const D& d) { return (long long)d.a() == a && (long long)d.b() == b; }); } ++g_traces; }); }
template<class D> static long long count_of(const D& d) { if constexpr(std::is_same<D, br::binomial_distribution<typename D::result_type, double>>::value) return d.t(); else return d.k(); }
template<class D> static void rej_count(const char* name) { add(std::string("rejects ") + name, [=] { for(long long t : {1LL, 2LL, 100LL, 127LL, 128LL, 200LL, 255LL, 256LL, 300LL, 32767LL, 32768LL, 65536LL + 5}) { bool ok = (unsigned long long)t <= (unsigned long long)(std::numeric_limits<typename D::result_type>::max)(); reject<D>(name, fmt("0.25 %lld", t), ok, [=](const D& d) { return count_of(d) == t && d.p() == 0.25; }); } ++g_traces; }); }
static void extra() {
#if DGROUP == 0
    rej_int<br::uniform_int_distribution<signed char>, signed char>("uniform_int<signed char>"); rej_int<br::uniform_int_distribution<unsigned char>, unsigned char>("uniform_int<unsigned char>"); rej_int<br::uniform_int_distribution<short>, short>("uniform_int<short>"); rej_int<br::uniform_int_distribution<unsigned short>, unsigned short>("uniform_int<unsigned short>"); rej_int<br::uniform_int_distribution<int>, int>("uniform_int<int>"); rej_int<br::uniform_int_distribution<long long>, long long>("uniform_int<long long>"); rej_int<br::uniform_smallint<signed char>, signed char>("uniform_smallint<signed char>"); rej_int<br::uniform_smallint<unsigned char>, unsigned char>("uniform_smallint<unsigned char>"); rej_int<br::uniform_smallint<int>, int>("uniform_smallint<int>"); rej_int<br::uniform_smallint<short>, short>("uniform_smallint<short>");
#endif
#if DGROUP == 1
    add("rejects reals", [] { const std::vector<double> v{-1e10, -1, 0, 0.25, 0.5, 1, 2, 1e10}; typedef br::uniform_real_distribution<double> U; typedef br::triangle_distribution<double> T; for(double a : v) for(double b : v) { if(a != b) reject<U>("uniform_real", fmt("%g %g", a, b), a < b, [=](const U& d) { return d.a() == a && d.b() == b; }); for(double c : v) reject<T>("triangle", fmt("%g %g %g", a, b, c), a <= b && b <= c, [=](const T& d) { return d.a() == a && d.b() == b && d.c() == c; }); } ++g_traces; });
#endif
#if DGROUP == 4
    add("rejects geometric", [] { typedef br::geometric_distribution<int, double> G; for(double p : {-1.0, -1e-300, 0.0, 1e-300, 0.25, 0.5, 0.999, 1.0, 1.5, 2.0, 1e300}) reject<G>("geometric", fmt("%.17g", p), p > 0 && p < 1, [=](const G& d) { return d.p() == p; }); ++g_traces; });
    rej_count<br::binomial_distribution<signed char, double>>("binomial<signed char>"); rej_count<br::negative_binomial_distribution<signed char, double>>("negative_binomial<signed char>"); rej_count<br::binomial_distribution<unsigned char, double>>("binomial<unsigned char>"); rej_count<br::negative_binomial_distribution<unsigned char, double>>("negative_binomial<unsigned char>"); rej_count<br::binomial_distribution<short, double>>("binomial<short>");
#endif
#if DGROUP == 5
    weights<double>("<double>"); weights<float>("<float>"); weights<long double>("<long double>"); weights<int>("<int>"); weights<unsigned long long>("<unsigned long long>");
#endif
}
#else
// D13: histories
struct Gen { template<class D> void operator()(const std::string& name, std::vector<typename D::param_type> ps) { typedef typename D::param_type P; add(name, [=] {
    const int DEPTH = thorough() ? 5 : 3; size_t np = std::min<size_t>(ps.size(), thorough() ? 4 : 3); const size_t OPS = 8; if(np < 1) return;
    // operations: draw, draw 2 on an extreme script, param(p_k), reset, per-call draw, replace by a copy with history, read text, compare
    for(size_t target = 0; target < ps.size(); ++target) { P pt = ps[target], po = ps[(target + 1) % ps.size()]; D fresh(pt); std::vector<int> seq(DEPTH); uint64_t N = 1; for(int i = 0; i < DEPTH; ++i) N *= OPS;
        for(uint64_t code = 0; code < N; ++code) { uint64_t c = code; for(int i = 0; i < DEPTH; ++i) { seq[i] = c % OPS; c /= OPS; } for(int start = 0; start < 2; ++start) { ++g_states; D d(start ? po : pt); E64 e; e.s = nullptr; e.salt = 3; std::string h = start ? "constructed with other parameters;" : "constructed;"; bool skip = false;
            for(int o : seq) { switch(o) { case 0: d(e); h += " draw"; break; case 1: { E64 x; x.s = &scripts()[5]; d(x); d(x); d(x); h += " draw3"; break; } case 2: d.param(po); h += " param(other)"; break; case 3: d.param(pt); h += " param"; break; case 4: d.reset(); h += " reset"; break; case 5: d(e, po); h += " per-call draw"; break; case 6: { D q(d); q(e); d = q; h += " copy+draw"; break; } case 7: { std::stringstream s; s << std::setprecision(40) << d; s >> d; h += " text"; break; } } }
            if(skip) continue; ctx("%s #%zu: %s", name.c_str(), target, h.c_str());
            // copies from any state stay in lockstep
            { D k(d); E64 x, y; x.s = y.s = nullptr; x.salt = y.salt = code % 5; for(int i = 0; i < 3; ++i) { typename D::result_type u = d(x), v = k(y); if(!same(u, v) || x.i != y.i) { fail("copy", name + fmt(" #%zu after ", target) + h + ": a copy draws other values"); return; } } if(!(d == k)) { fail("copy", name + fmt(" #%zu after ", target) + h + ": original and copy in lockstep compare unequal"); return; } }
            for(int way = 0; way < 2; ++way) { D r(d); if(way == 0) { r.param(pt); } else { if(!(r.param() == pt)) continue; r.reset(); } ++g_execs; size_t k = (code + start) % scripts().size(); D f(fresh); E64 x, y; x.s = y.s = &scripts()[k]; for(int i = 0; i < 4; ++i) { typename D::result_type u = r(x), v = f(y); if(!same(u, v) || x.i != y.i) { fail("history", name + fmt(" #%zu after ", target) + h + (way ? " reset()" : " param()") + fmt(": draw %d differs from that of a new object", i + 1)); return; } } if(!(r == f)) { fail("history", name + fmt(" #%zu after ", target) + h + ": compares unequal to a new object with the same draws"); return; } } } }
        ++g_traces; }
    sample(name); }, 60); } };
static void extra() {}
#endif
#include <iomanip>
MC_MAIN({ Gen c; all_dists(c); extra(); })
