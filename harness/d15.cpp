// D15: wrappers.  PART 0..5: variate_generator over every distribution (DGROUP = PART), explored against the model
// "engine object + distribution object"; PART 6: random_number_generator, uniform_01<Engine>, older wrapper classes.
#include <iomanip>
#if PART < 6
#define DGROUP PART
#endif
#include "dists.hpp"
#include <boost/random/variate_generator.hpp>
#include <boost/random/random_number_generator.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/linear_congruential.hpp>
#include <boost/random/lagged_fibonacci.hpp>
using namespace mc;
struct E64 { typedef uint64_t result_type; static const bool has_fixed_range = false; uint64_t salt = 0, i = 0; static constexpr uint64_t min BOOST_PREVENT_MACRO_SUBSTITUTION () { return 0; } static constexpr uint64_t max BOOST_PREVENT_MACRO_SUBSTITUTION () { return ~0ULL; } uint64_t operator()() { ++g_trans; uint64_t k = i++; if(k > 300000) throw std::runtime_error("a draw does not end"); uint64_t z = (k + 1 + salt * 7919) * 0x9e3779b97f4a7c15ULL; z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ULL; z = (z ^ z >> 27) * 0x94d049bb133111ebULL; return z ^ z >> 31; } bool operator==(const E64& o) const { return i == o.i && salt == o.salt; } };
template<class V> bool same(const V& a, const V& b) { return a == b || (a != a && b != b); }
template<class R> bool same(const std::vector<R>& a, const std::vector<R>& b) { return a == b; }
#if PART < 6
template<class T> T fresh();
template<> inline E64 fresh<E64>() { E64 e; e.salt = 5; return e; } template<> inline boost::random::mt19937 fresh<boost::random::mt19937>() { return boost::random::mt19937(7u); } template<> inline boost::random::minstd_rand fresh<boost::random::minstd_rand>() { return boost::random::minstd_rand(7u); } template<> inline boost::random::lagged_fibonacci607 fresh<boost::random::lagged_fibonacci607>() { return boost::random::lagged_fibonacci607(7u); }
template<class E, class F, class D> static void forms(const std::string& name, const char* fn, const std::vector<typename D::param_type>& ps, int DEPTH) {
    typedef boost::variate_generator<F, D> G; constexpr bool byval = std::is_same<F, E>::value, byref = std::is_reference<F>::value; typedef typename D::result_type V; static_assert(std::is_same<typename G::engine_value_type, E>::value && std::is_same<typename G::engine_type, F>::value && std::is_same<typename G::distribution_type, D>::value && std::is_same<typename G::result_type, V>::value, "");
    const int OPS = 10; uint64_t N = 1; for(int i = 0; i < DEPTH; ++i) N *= OPS; static const char* const nm[] = {"draw", "draw from the outer engine", "draw from engine()", "draw with parameters", "set parameters through distribution()", "draw from a copy", "copy first generator to second, draw second", "draw second", "reset", "const access"};
    for(uint64_t code = 0; code < N; ++code) { ++g_states; ++g_execs; uint64_t c = code; std::string h;
        E outer = fresh<E>(), mo = fresh<E>(); D d(ps[0]); auto arg = [&]() -> F { if constexpr(std::is_pointer<F>::value) return &outer; else if constexpr(byref) return outer; else return outer; };
        G g(arg(), d); D d2(ps.back()); G g2(arg(), d2); E own = outer, own2 = outer; D md(ps[0]), md2(ps.back());
        E& me = byval ? own : mo; E& me2 = byval ? own2 : mo; // the model's engines
        auto bad = [&](const std::string& w) { fail("variate_generator", name + " held " + fn + ":" + h + ": " + w); };
        for(int k = 0; k < DEPTH; ++k) { int o = c % OPS; c /= OPS; h += std::string(k ? ", " : " ") + nm[o]; bool ok = true;
            switch(o) {
            case 0: { V x = g(); ok = same<V>(x, md(me)); break; }
            case 1: { ok = outer() == mo(); break; }
            case 2: { ok = g.engine()() == me(); break; }
            case 3: { V x = g(ps.back()); ok = same<V>(x, md(me, ps.back())); break; }
            case 4: { g.distribution().param(ps.back()); md.param(ps.back()); break; }
            case 5: { G q(g); D qd(md); if(byval) { E qe(me); for(int t = 0; t < 2; ++t) { V x = q(); ok = ok && same<V>(x, qd(qe)); } } else { V x = q(); ok = same<V>(x, qd(me)); } break; }
            case 6: if constexpr(!byref) { g2 = g; if(byval) own2 = own; md2 = md; V x = g2(); ok = same<V>(x, md2(me2)); } else { V x = g2(); ok = same<V>(x, md2(me2)); } break;
            case 7: { V x = g2(); ok = same<V>(x, md2(me2)); break; }
            case 8: g.distribution().reset(); md.reset(); break;
            case 9: { const G& q = g; ok = same<V>((q.min)(), (md.min)()) && same<V>((q.max)(), (md.max)()) && q.distribution() == md && q.engine() == me && &q.engine() == &g.engine() && &q.distribution() == &g.distribution() && (byval ? (const void*)&q.engine() != (const void*)&outer : (const void*)&q.engine() == (const void*)&outer); break; } }
            if(!ok) { bad("the result is not that of the distribution with the engine"); return; } if(!(outer == mo)) { bad(byval ? "the caller's engine advanced" : "the shared engine did not advance exactly as the draws require"); return; } if(!(g.engine() == me) || !(g2.engine() == me2)) { bad("the generator's engine is not where its draws put it"); return; } } }
    ++g_traces; }
struct Gen { template<class D> void operator()(const std::string& name, std::vector<typename D::param_type> ps) { add(name, [=] { int d = thorough() ? 5 : 4; std::vector<std::vector<typename D::param_type>> sets{ps}; if(ps.size() > 2) { sets.push_back({ps[1], ps[2]}); }
    for(auto& s : sets) { forms<E64, E64, D>(name, "by value", s, d); forms<E64, E64&, D>(name, "by reference", s, d); forms<E64, E64*, D>(name, "by pointer", s, d); }
    typedef boost::random::minstd_rand M; forms<M, M, D>(name, "by value (minstd_rand)", ps, d); forms<M, M&, D>(name, "by reference (minstd_rand)", ps, d); forms<M, M*, D>(name, "by pointer (minstd_rand)", ps, d); typedef boost::random::mt19937 T; forms<T, T, D>(name, "by value (mt19937)", ps, 2); forms<T, T&, D>(name, "by reference (mt19937)", ps, 2); forms<T, T*, D>(name, "by pointer (mt19937)", ps, 2);
    sample(name); }, 60); } };
MC_MAIN({ Gen c; all_dists(c); })
#else
// every n and engine range: each result equally often for each number of engine values used
template<class I, class T> static void functor(const char* ty) { for(unsigned r = 1; r <= (thorough() ? 40u : 20u); ++r) add(fmt("functor %s engine of %u", ty, r), [=] { for(unsigned n = 1; n <= (thorough() ? 60u : 34u); ++n) for(int lo : {0, 1, 7}) { if(r == 1 && n > 1) continue; DynEng<T> e = dyn<T>((T)lo, r - 1); Tally<I> t; size_t depth = r == 1 ? 1 : (size_t)std::ceil(std::log(n) / std::log(r) - 1e-9) + 1; while(std::pow(r, depth) > 4e4 && depth > 1) --depth; ctx("n %u", n); bool out = false;
        UseTape u; explore(depth, [&](Chooser& c) { u.t.ch = &c; u.t.calls = 0; u.t.log.clear(); boost::random_number_generator<DynEng<T>, I> g(e), k(g); try { I x = n & 1 ? g((I)n) : k((I)n); ++g_states; if(!(x >= 0 && x < (I)n)) out = true; t.put(c.pos, x); } catch(Limit&) {} });
        if(out) { fail("functor", fmt("n %u, engine of %u values from %d: value outside [0, n)", n, r, lo)); return; } for(auto& q : t.n) { uint64_t f = q.second.begin()->second; if(q.second.size() != n) { fail("functor", fmt("n %u, engine of %u values: only %zu values occur with %zu engine values", n, r, q.second.size(), q.first)); return; } for(auto& p : q.second) if(p.second != f) { fail("functor", fmt("n %u, engine of %u values: value %lld occurs %llu times, another %llu", n, r, (ll)p.first, (ull)p.second, (ull)f)); return; } } if(t.n.empty() && n > 1) count("no draw within the bound"); } ++g_traces; sample(fmt("%s, engine of %u values, every n", ty, r)); }); }
static void shuffles() { add("shuffles", [] { for(unsigned r : {2u, 3u, 4u, 6u, 12u, 24u, 60u}) for(int L = 1; L <= (r == 60 ? 4 : 4); ++L) { DynEng<uint32_t> e = dyn<uint32_t>(3, r - 1); std::map<size_t, std::map<std::vector<int>, uint64_t>> t; UseTape u; explore(r > 12 ? 3 : r > 4 ? 4 : 7, [&](Chooser& c) { u.t.ch = &c; u.t.log.clear(); boost::random_number_generator<DynEng<uint32_t>, std::ptrdiff_t> g(e); std::vector<int> v; for(int i = 0; i < L; ++i) v.push_back(i); std::string uses; try { for(int i = 1; i < L; ++i) { std::swap(v[i], v[g(i + 1)]); } ++g_states; ++t[c.pos][v]; } catch(Limit&) {} });
        // all permutations equally often at every depth at which every prefix could end
        size_t full = 1; for(int i = 2; i <= L; ++i) full *= i; LD mass = 0; std::map<std::vector<int>, LD> w; for(auto& q : t) for(auto& p : q.second) { LD x = p.second / std::pow((LD)r, (LD)q.first); w[p.first] += x; mass += x; } if(mass == 0) continue; if(w.size() != full) { fail("shuffle", fmt("%d elements, engine of %u values: %zu of %zu permutations", L, r, w.size(), full)); return; } for(auto& p : w) if(std::fabs(p.second / mass * full - 1) > 1e-12) { fail("shuffle", fmt("%d elements, engine of %u values: permutations are not equally likely (%Lg)", L, r, p.second / mass * full)); return; } } ++g_traces; });
    add("functor limits", [] { auto go = [](auto zero) { typedef decltype(zero) I; const I M = (std::numeric_limits<I>::max)(); for(I n : {I(1), I(2), I(100), I(M / 2 + 1), I(M - 1), M}) for(uint64_t v : {0ULL, ~0ULL, 1ULL << 63, 0x123456789abcdefULL, ~0ULL - 1}) { Src s; s.s = Vals(8, v); I x = s.run([&](DynEng<uint64_t>& e) { boost::random_number_generator<DynEng<uint64_t>, I> g(e); return g(n); }); if(!(x >= 0 && x < n)) fail("functor", fmt("n %lld: %lld", (ll)n, (ll)x)); Src s2; s2.s = s.s; I y = s2.run([&](DynEng<uint64_t>& e) { return boost::random::uniform_int_distribution<I>(0, n - 1)(e); }); if(x != y) fail("functor", fmt("n %lld: not the value of uniform_int_distribution", (ll)n)); } }; go(long()); go(int()); go((short)0); go(0u); go(0ll); go((unsigned char)0); ++g_traces; }); }
// uniform_01 over an engine held by value, reference, pointer
template<class R, class T> static void canon(const char* ty) { add(std::string("uniform_01 ") + ty, [=] { for(uint64_t span = 0; span < (thorough() ? 700u : 300u); ++span) for(T lo : lows<T>(span)) { if(span == 0) continue; DynEng<T> e = dyn<T>(lo, span); std::vector<uint64_t> vals; for(uint64_t k = 0; k <= span; ++k) { ++g_states; ++g_execs; UseTape u; size_t pos = 0; u.t.fn = [&](uint64_t) -> uint64_t { if(pos++ == 0) return k; if(pos > 100) throw std::runtime_error("does not end"); return span / 2; };
        DynEng<T> b(e); boost::uniform_01<DynEng<T>, R> v(b); boost::uniform_01<DynEng<T>&, R> rf(b); boost::uniform_01<DynEng<T>*, R> p(&b); R want = boost::uniform_01<R>()(b); size_t used = pos; pos = 0; R a = v(); size_t ua = pos; pos = 0; R c = rf(); pos = 0; R d = p();
        if(a != want || c != want || d != want || ua != used) { fail("uniform_01", fmt("engine [%lld, +%llu], value %llu: held forms give %Lg %Lg %Lg, the distribution %Lg", (ll)lo, (ull)span, (ull)k, (LD)a, (LD)c, (LD)d, (LD)want)); return; } if(!(a >= 0 && a < 1)) { fail("uniform_01", "outside [0, 1)"); return; } if(used == 1 && std::fabs((LD)a - (LD)k / ((LD)span + 1)) > 2 * std::numeric_limits<R>::epsilon()) { fail("uniform_01", "not (value - min) / (max - min + 1)"); return; } if((v.min)() != 0 || (v.max)() != 1 || &rf.base() != &b || &p.base() != &b || &v.base() == &b) { fail("uniform_01", "min, max or base"); return; } } } ++g_traces; }); }
template<class E> static void hold01(const char* en) { add(std::string("uniform_01 holding ") + en, [=] { const int DEPTH = thorough() ? 7 : 5, OPS = 7; uint64_t N = 1; for(int i = 0; i < DEPTH; ++i) N *= OPS; for(uint64_t code = 0; code < N; ++code) { ++g_states; ++g_execs; E outer(9u), mo(9u); boost::uniform_01<E> v(outer); E mv(outer); boost::uniform_01<E&> r(outer); boost::uniform_01<E*> p(&outer); uint64_t c = code; bool ok = true; std::string h; for(int i = 0; i < DEPTH && ok; ++i) { int o = c % OPS; c /= OPS; h += fmt(" %d", o); boost::uniform_01<> u; switch(o) { case 0: ok = v() == u(mv); break; case 1: ok = r() == u(mo); break; case 2: ok = p() == u(mo); break; case 3: ok = outer() == mo(); break; case 4: ok = v.base()() == mv(); break; case 5: { boost::uniform_01<E> q(v); E mq(mv); ok = q() == u(mq) && q() == u(mq); v.reset(); break; } case 6: { std::stringstream s; s << v << ' ' << 17; boost::uniform_01<E> q((E(3u))); int t = 0; s >> q >> t; E mq(mv); ok = s && t == 17 && q() == u(mq) && q() == u(mq); break; } } ok = ok && outer == mo && v.base() == mv && r.base() == mo && p.base() == mo; } if(!ok) { fail("uniform_01", std::string(en) + ": operations" + h + ": differs from the distribution on the engine"); return; } } ++g_traces; }); }
// older classes
static std::vector<Vals> tapes() { const uint64_t A[] = {0, ~0ULL, 1ULL << 63, 0x100, ~0ULL << 12, 0x2545F4914F6CDD1DULL, 3ULL << 62}; std::vector<Vals> r; for(uint64_t a : A) for(uint64_t b : A) for(uint64_t c : A) r.push_back({a, b, c}); return r; }
template<class O, class N, class C> static std::string lock(O o, N n, C conv) { for(auto& v : tapes()) { Src a, b; a.s = b.s = v; std::vector<LD> x, y; a.run([&](DynEng<uint64_t>& e) { for(int i = 0; i < 3; ++i) x.push_back(o(e)); return 0; }); b.run([&](DynEng<uint64_t>& e) { for(int i = 0; i < 3; ++i) y.push_back(conv(n(e))); return 0; }); if(a.used != b.used) return "uses other engine values"; for(int i = 0; i < 3; ++i) if(!(x[i] == y[i] || (std::isinf(x[i]) && std::isinf(y[i])) || std::fabs(x[i] - y[i]) <= 1e-5L * (1e-6L + std::fabs(y[i])) * (sizeof(typename O::input_type) > 4 ? 1e-6L : 1))) return fmt("draw %d is %.17Lg, expected %.17Lg", i + 1, x[i], y[i]); } return ""; }
template<class O> static std::string text(const O& a, O b) { std::stringstream s; s << std::setprecision(40) << a << " -5"; int t = 0; s >> b >> t; if(s.fail() || t != -5) return "reading its own text fails or disturbs what follows"; return lock(a, b, [](auto x) { return (LD)x; }); }
template<class R> static void older(const char* ty) { add(std::string("older classes ") + ty, [=] { std::string w; auto chk = [&](const std::string& what) { if(!w.empty()) fail("older", what + ": " + w); w.clear(); ++g_traces; };
    for(R p : {R(0.5), R(0.25), R(0.1), R(0.9), R(0.999), R(0.3)}) { boost::geometric_distribution<int, R> o(p); boost::random::geometric_distribution<int, R> n(1 - p); w = lock(o, n, [](int x) { return (LD)x + 1; }); chk(fmt("geometric(%Lg)", (LD)p)); if(std::fabs(o.p() - p) > std::numeric_limits<R>::epsilon()) fail("older", "geometric: p()"); boost::geometric_distribution<int, R> q(R(0.77)); w = text(o, q); chk(fmt("geometric(%Lg) text", (LD)p)); o.reset(); }
    for(R m : {R(1), R(0.5), R(20), R(1000)}) for(R s : {R(1), R(0.1), R(7), R(300)}) { boost::lognormal_distribution<R> o(m, s); LD v = (LD)s * s / ((LD)m * m); boost::random::lognormal_distribution<R> n((R)(std::log((LD)m) - std::log1p(v) / 2), (R)std::sqrt(std::log1p(v))); if(std::is_same<R, double>::value && s <= 10 * m && s * 100 >= m) { w = lock(o, n, [](R x) { return (LD)x; }); chk(fmt("lognormal(%Lg, %Lg)", (LD)m, (LD)s)); } if(o.mean() != m || o.sigma() != s) fail("older", "lognormal: mean() or sigma()"); boost::lognormal_distribution<R> q(3, 2); w = text(o, q); chk(fmt("lognormal(%Lg, %Lg) text", (LD)m, (LD)s)); o.reset(); }
    if(boost::lognormal_distribution<R>().mean() != 1 || boost::lognormal_distribution<R>().sigma() != 1 || boost::geometric_distribution<int, R>().p() != R(0.5)) fail("older", "defaults");
    for(auto q : {std::pair<R, R>(0, 1), std::pair<R, R>(R(-0.5), 3), std::pair<R, R>(R(0.1), R(0.3))}) { boost::uniform_real<R> o(q.first, q.second); boost::random::uniform_real_distribution<R> n(q.first, q.second); auto id = [](R x) { return (LD)x; }; w = lock(o, n, id); chk("uniform_real"); typename boost::uniform_real<R>::param_type p(q.first, q.second); boost::uniform_real<R> z; z.param(p); w = lock(z, n, id); chk("uniform_real param"); w = lock(boost::uniform_real<R>(p), n, id); chk("uniform_real from param"); w = text(o, boost::uniform_real<R>()); chk("uniform_real text"); } }); }
struct PC { boost::uniform_int<int> d; int n; typedef int input_type; template<class E> int operator()(E& e) { return d(e, n); } }; struct PP { boost::uniform_int<int> d; boost::uniform_int<int>::param_type p; typedef int input_type; template<class E> int operator()(E& e) { return d(e, p); } };
static void ints() { add("older classes uniform_int", [] { for(int n = 1; n < 50; ++n) for(int lo = -3; lo < 4; ++lo) { boost::uniform_int<int> o(lo, lo + n - 1); boost::random::uniform_int_distribution<int> nw(lo, lo + n - 1); std::string w; auto id = [](int x) { return (LD)x; }; 
    w = lock(o, nw, id); if(w.empty()) w = lock(PC{boost::uniform_int<int>(-1000, 1000), n}, boost::random::uniform_int_distribution<int>(0, n - 1), id); if(w.empty()) w = lock(PP{boost::uniform_int<int>(5, 6), boost::uniform_int<int>::param_type(lo, lo + n - 1)}, nw, id); if(w.empty()) { boost::uniform_int<int> z; z.param(boost::uniform_int<int>::param_type(lo, lo + n - 1)); w = lock(z, nw, id); if(z.a() != lo || z.b() != lo + n - 1 || (z.min)() != lo || (z.max)() != lo + n - 1) w = "accessors"; } if(w.empty()) w = text(o, boost::uniform_int<int>()); if(!w.empty()) { fail("older", fmt("uniform_int(%d, %d): ", lo, lo + n - 1) + w); return; } }
    // legacy use: variate_generator with a per-call bound
    { boost::mt19937 e(5u), m(5u); boost::variate_generator<boost::mt19937&, boost::uniform_int<int>> g(e, boost::uniform_int<int>(0, 9)); for(int n = 1; n < 300; ++n) { int x = g(n), y = boost::random::uniform_int_distribution<int>(0, n - 1)(m); if(x != y || !(e == m)) { fail("older", "variate_generator with a bound"); break; } } } ++g_traces; }); }
static void all() { functor<long, uint32_t>("long"); functor<int, int>("int"); functor<unsigned, unsigned char>("unsigned"); functor<short, ll>("short"); shuffles(); canon<double, uint32_t>("double"); canon<float, int>("float"); canon<double, signed char>("double over signed char"); canon<long double, ll>("long double"); hold01<boost::minstd_rand>("minstd_rand"); hold01<boost::mt19937>("mt19937"); hold01<boost::lagged_fibonacci607>("lagged_fibonacci607"); older<double>("double"); older<float>("float"); ints(); }
MC_MAIN(all())
#endif
