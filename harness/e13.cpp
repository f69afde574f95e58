// E13: objects are independent.  Every interleaving of short operation lists of two objects is executed and every result compared
// with the one the object gives alone; constant operations change no later result.
// With -DRACES (built with the thread sanitizer): every pair of operations on two objects, and every pair of constant operations on
// one object, runs in two unsynchronised threads in both orders; any two conflicting memory accesses are reported.
#if PART < 6
#define DGROUP PART
#include "dists.hpp"
#elif PART == 6
#include "ecommon.hpp"
#else
#include "mc.hpp"
#include <boost/random/sobol.hpp>
#include <boost/random/niederreiter_base2.hpp>
#include <boost/random/faure.hpp>
#include <boost/random/seed_seq.hpp>
#include <boost/random/variate_generator.hpp>
#include <boost/random/uniform_01.hpp>
#include <boost/random/random_number_generator.hpp>
#include <boost/random/normal_distribution.hpp>
#include <boost/random/exponential_distribution.hpp>
#include <boost/random/discrete_distribution.hpp>
#include <boost/random/uniform_on_sphere.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/linear_congruential.hpp>
namespace br = boost::random;
#endif
#include <sstream>
#include <memory>
#include <thread>
#include <atomic>
using namespace mc;
typedef unsigned long long ull;
struct Hash { uint64_t h = 1469598103934665603ULL; void mix(uint64_t v) { h = (h ^ v) * 1099511628211ULL; h ^= h >> 29; }
    template<class T> void put(const T& v) { if constexpr(std::is_floating_point<T>::value) { if(v != v) mix(99); else { int e = 0; long double m = std::frexp((long double)v, &e); if(std::isinf((long double)v)) mix(v > 0 ? 97 : 98); else { mix((uint64_t)(long long)std::ldexp(m, 63)); mix(e); } } } else mix((uint64_t)v); }
    template<class T> void put(const std::vector<T>& v) { mix(v.size()); for(const T& x : v) put(x); }
    void put(const std::string& s) { mix(s.size()); for(char c : s) mix((unsigned char)c); } };
// An object with operations; op numbers >= muts() are constant ones.
struct Actor { std::string name; virtual ~Actor() {} virtual std::unique_ptr<Actor> twin() const = 0; virtual void restart() = 0; virtual int muts() const = 0; virtual int ops() const = 0; virtual const char* opname(int) const = 0; virtual uint64_t op(int o, int when) = 0; };
typedef std::unique_ptr<Actor> AP;
typedef std::vector<int> List;
static void lists(int ops, int n, const std::function<void(const List&)>& f) { List l(n, 0); for(;;) { f(l); int i = 0; while(i < n && ++l[i] == ops) l[i++] = 0; if(i == n) return; } }
typedef std::vector<uint64_t> Res;
static Res solo(Actor& a, const List& l) { a.restart(); Res r; int w = 0; for(int o : l) { r.push_back(a.op(o, w)); if(o < a.muts()) ++w; ++g_trans; } return r; }
static std::string show(const Actor& a, const List& l) { std::string s; for(int o : l) s += std::string(s.empty() ? "" : ", ") + a.opname(o); return s; }
// all lists of length n for a and m for b over the first oa / ob operations, all merges
static bool merges(Actor& a, Actor& b, int n, int m, int oa, int ob) {
    std::map<List, Res> sa, sb; lists(oa, n, [&](const List& l) { sa[l] = solo(a, l); }); lists(ob, m, [&](const List& l) { sb[l] = solo(b, l); });
    std::vector<std::vector<char>> ws; for(unsigned bits = 0; bits < 1u << (n + m); ++bits) if(__builtin_popcount(bits) == n) { std::vector<char> w; for(int i = 0; i < n + m; ++i) w.push_back(bits >> i & 1); ws.push_back(w); }
    for(auto& x : sa) for(auto& y : sb) for(auto& w : ws) { ++g_execs; ++g_states; a.restart(); b.restart(); int i = 0, j = 0, wa = 0, wb = 0; std::string how; for(char c : w) { ++g_trans; Actor& t = c ? a : b; int& k = c ? i : j; int& wh = c ? wa : wb; const List& l = c ? x.first : y.first; const Res& r = c ? x.second : y.second; uint64_t v = t.op(l[k], wh);
            if(v != r[k]) { how.clear(); int p = 0, q = 0; for(char d : w) { how += std::string(how.empty() ? "" : ", ") + (d ? "A." : "B.") + (d ? a.opname(x.first[p++]) : b.opname(y.first[q++])); if(p == i + (c ? 1 : 0) && q == j + (c ? 0 : 1)) break; } fail("interference", "A = " + a.name + ", B = " + b.name + ": in the history " + how + " the last result differs from the one of the object alone"); return false; }
            if(l[k] < t.muts()) ++wh; ++k; } }
    return true; }
// constant operations inserted anywhere change no result
static bool inserts(Actor& a, int n) { bool ok = true; lists(a.ops(), n, [&](const List& l) { if(!ok) return; List f; for(int o : l) if(o < a.muts()) f.push_back(o); if(f.size() == l.size() || f.empty()) return; ++g_execs; ++g_states; Res x = solo(a, l), y = solo(a, f); size_t k = 0; for(size_t i = 0; i < l.size(); ++i) if(l[i] < a.muts() && x[i] != y[k++]) { fail("const", a.name + ": in the history " + show(a, l) + " the constant operations change a later result"); ok = false; return; } }); return ok; }
#ifdef RACES
static thread_local int t_op; static std::atomic<int> g_race; static std::string g_report; // set from the sanitizer's callback
extern "C" void __tsan_on_report(void*) { g_race.store(1, std::memory_order_relaxed); }
extern "C" const char* __tsan_default_options() { return "exitcode=0:report_bugs=1:suppress_equal_stacks=0:suppress_equal_addresses=0:log_path=/dev/null:history_size=0:atexit_sleep_ms=0"; }
static bool conc(const std::function<void()>& f, const std::function<void()>& g) { std::atomic<int> turn(0); g_race = 0; std::thread t([&] { f(); turn.store(1, std::memory_order_relaxed); }), u([&] { while(!turn.load(std::memory_order_relaxed)) std::this_thread::yield(); g(); }); t.join(); u.join(); ++g_execs; g_trans += 2; return !g_race; }
static bool races(Actor& a, Actor& b) { for(int x = 0; x < a.ops(); ++x) for(int y = 0; y < b.ops(); ++y) for(int s = 0; s < 2; ++s) { ++g_states; a.restart(); b.restart(); auto f = [&] { a.op(x, 0); a.op(0, 1); }; auto g = [&] { b.op(y, 0); b.op(0, 1); }; if(!(s ? conc(g, f) : conc(f, g))) { fail("race", a.name + fmt(", operation %s, and ", a.opname(x)) + b.name + fmt(", operation %s, on different objects in different threads access the same memory", b.opname(y))); return false; } }
    for(int x = a.muts(); x < a.ops(); ++x) for(int y = a.muts(); y < a.ops(); ++y) { ++g_states; a.restart(); a.op(0, 0); if(!conc([&] { a.op(x, 1); }, [&] { a.op(y, 1); })) { fail("race-const", a.name + fmt(": constant operations %s and %s of one object in two threads: one writes what the other reads", a.opname(x), a.opname(y))); return false; } } return true; }
#endif
// quick effort: 0 cheap object .. 3 very expensive
static void pair(Actor& a, Actor& b, int cost) {
#ifdef RACES
    races(a, b); (void)cost;
#else
    int e = cost - (thorough() ? 1 : 0); ++g_traces;
    if(e <= 0) { if(merges(a, b, 2, 2, a.ops(), b.ops()) && merges(a, b, 3, 3, a.muts(), b.muts()) && e < 0) { if(merges(a, b, 3, 2, a.ops(), b.ops())) merges(a, b, 4, 3, a.muts(), b.muts()); } }
    else if(e == 1) { if(merges(a, b, 2, 1, a.ops(), b.ops())) merges(a, b, 1, 2, a.ops(), b.ops()); if(merges(a, b, 2, 2, a.muts(), b.muts())) {} }
    else { if(merges(a, b, 1, 1, a.ops(), b.ops())) merges(a, b, 2, 1, std::min(3, a.muts()), std::min(3, b.muts())); }
#endif
}
static void single(Actor& a, int cost) {
#ifndef RACES
    int e = cost - (thorough() ? 1 : 0); inserts(a, e < 0 ? 5 : e == 0 ? 4 : e == 1 ? 3 : 2);
#else
    (void)a; (void)cost;
#endif
}
#if PART < 6
struct E64 { typedef uint64_t result_type; static const bool has_fixed_range = false; uint64_t i, salt; static constexpr uint64_t min BOOST_PREVENT_MACRO_SUBSTITUTION () { return 0; } static constexpr uint64_t max BOOST_PREVENT_MACRO_SUBSTITUTION () { return ~0ULL; } uint64_t operator()() { uint64_t k = i++; if(k > 300000) throw std::runtime_error("a draw does not end"); uint64_t z = (k + 1 + salt * 7919) * 0x9e3779b97f4a7c15ULL; z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ULL; z = (z ^ z >> 27) * 0x94d049bb133111ebULL; return z ^ z >> 31; } };
template<class D> struct DA : Actor { typedef std::vector<typename D::param_type> P; std::shared_ptr<P> ps; size_t k; D first, d; DA(const std::string& n, std::shared_ptr<P> p, size_t i) : ps(p), k(i), first((*p)[i]), d(first) { name = n + fmt(" #%zu", i); }
    AP twin() const override { DA* a = new DA(*this); return AP(a); } void restart() override { d = first; } int muts() const override { return 4; } int ops() const override { return 7; }
    const char* opname(int o) const override { static const char* const n[] = {"draw", "draw with parameters", "set parameters", "reset", "write", "read parameters and compare", "copy and draw"}; return n[o]; }
    uint64_t op(int o, int when) override { Hash h; E64 e{0, (uint64_t)when}; auto& other = (*ps)[(k + 1) % ps->size()]; switch(o) { case 0: h.put(d(e)); h.put(e.i); break; case 1: h.put(d(e, other)); h.put(e.i); break; case 2: d.param(other); break; case 3: d.reset(); break;
        case 4: { std::ostringstream s; s << d; h.put(s.str()); break; } case 5: { const D& c = d; typename D::param_type q = c.param(); h.put(q == (*ps)[k]); h.put(q == other); h.put(c == first); h.put((c.min)()); h.put((c.max)()); std::ostringstream s; s << q; h.put(s.str()); break; } default: { D c(d); h.put(c(e)); h.put(c(e)); h.put(e.i); } } return h.h; } };
struct Gen { AP prev; template<class D> void operator()(const std::string& name, std::vector<typename D::param_type> ps) { auto p = std::make_shared<std::vector<typename D::param_type>>(ps); std::shared_ptr<Actor> before(prev ? prev->twin() : AP()); prev.reset(new DA<D>(name, p, 0));
#ifndef RACES
    add(name, [=] { size_t n = ps.size(); for(size_t i = 0; i < n; ++i) { DA<D> a(name, p, i); single(a, 0); if(!thorough() && i > 2 && i + 1 < n) continue; for(size_t j : {i, (i + 1) % n, n - 1}) { DA<D> b(name, p, j); pair(a, b, thorough() && i > 3 ? 1 : 0); } } DA<D> a(name, p, 0), b(name, p, n - 1); if(n > 1) pair(a, b, 0); single(b, 0); if(before) { DA<D> c(name, p, 0); pair(*before, c, 0); } sample(name); });
#else
    add(name, [=] { size_t n = ps.size(); DA<D> a(name, p, 0), b(name, p, n - 1); pair(a, b, 0); if(n > 2) { DA<D> c(name, p, 1), d(name, p, n / 2); pair(c, d, 0); pair(d, d.k == c.k ? b : c, 0); } if(thorough()) for(size_t i = 0; i + 1 < n; ++i) { DA<D> x(name, p, i), y(name, p, i + 1); pair(x, y, 0); } if(before) pair(*before, a, 0); sample(name); });
#endif
} };
static void body() { Gen g; all_dists(g); }
#elif PART == 6
struct EA : Actor { Entry* e; EP first, x; int salt; EA(Entry& en, int s) : e(&en), first(en.make()), x(en.make()), salt(s) { name = en.name; first->seed_val(11 + s); for(size_t i = 0; i + 1 < en.phase; ++i) first->next(); x->assign(*first); }
    AP twin() const override { return AP(new EA(*e, salt)); } void restart() override { x->assign(*first); } int muts() const override { return e->bits ? 4 : 5; } int ops() const override { return muts() + 3; }
    const char* opname(int o) const override { if(o >= muts()) o += 5 - muts(); static const char* const n[] = {"draw", "discard(3)", "seed(value)", "seed(seed_seq)", "generate", "write", "compare", "copy and draw"}; return n[o]; }
    uint64_t op(int o, int when) override { if(o >= muts()) o += 5 - muts(); Hash h; switch(o) { case 0: h.put(x->next()); break; case 1: x->discard(3); break; case 2: x->seed_val(3 + when); break; case 3: { boost::random::seed_seq s{1u, 2u, (unsigned)when}; x->seed_bseq(s); break; } case 4: { uint32_t w[5]; x->generate(w, w + 5); for(uint32_t v : w) h.put(v); break; }
        case 5: { std::ostringstream s; x->write(s); h.put(s.str()); break; } case 6: h.put(x->eq(*first)); h.put(x->ne(*first)); h.put(x->min()); h.put(x->max()); break; default: { EP c = x->clone(); h.put(c->next()); h.put(c->next()); } } return h.h; } };
static void engine(size_t i) { auto& es = entries(); Entry& e = es[i]; if(e.name.find("mt_m1") != std::string::npos) { ++g_execs; return; } int cost = e.phase > 3000 ? 3 : e.phase > 500 ? 2 : e.phase > 30 ? 1 : 0; if(e.cost > 2 && cost < 2) ++cost; EA a(e, 0), b(e, 1); pair(a, b, cost); single(a, cost);
    for(size_t d : {1, 2, 3}) if(i >= d) { Entry& f = es[i - d]; if(f.name.find("mt_m1") != std::string::npos) continue; if(d > 1 && !thorough()) continue; EA c(f, 2); pair(c, a, std::max(cost, f.phase > 3000 ? 3 : f.phase > 500 ? 2 : 1)); } sample(e.name); }
static void body() { init_engines(); for(size_t i = 0; i < entries().size(); ++i) add(entries()[i].name, [=] { engine(i); }); }
#else
template<class Q> struct QA : Actor { size_t D; Q first, x; QA(const char* n, size_t d) : D(d), first(d), x(d) { name = n + fmt(" dimension %zu", d); first.discard(2 * d + 1); }
    AP twin() const override { return AP(new QA(*this)); } void restart() override { x = first; } int muts() const override { return 4; } int ops() const override { return 7; }
    const char* opname(int o) const override { static const char* const n[] = {"draw", "discard", "seed(5)", "draw a point", "write", "compare", "copy and draw"}; return n[o]; }
    uint64_t op(int o, int) override { Hash h; switch(o) { case 0: h.put(x()); break; case 1: x.discard(D + 1); break; case 2: x.seed(5); break; case 3: for(size_t i = 0; i < D; ++i) h.put(x()); break; case 4: { std::ostringstream s; s << x; h.put(s.str()); break; } case 5: h.put(x == first); h.put(x != first); h.put(x.dimension()); h.put((x.min)()); h.put((x.max)()); break; default: { Q c(x); for(size_t i = 0; i < D; ++i) h.put(c()); } } return h.h; } };
template<class D> struct VA : Actor { typedef br::variate_generator<br::mt19937, D> G; G first, x; VA(const char* n, const D& d, unsigned s) : first(br::mt19937(s), d), x(first) { name = n; }
    AP twin() const override { return AP(new VA(*this)); } void restart() override { x = first; } int muts() const override { return 3; } int ops() const override { return 5; }
    const char* opname(int o) const override { static const char* const n[] = {"draw", "draw from engine()", "reset", "read", "copy and draw"}; return n[o]; }
    uint64_t op(int o, int) override { Hash h; switch(o) { case 0: h.put(x()); break; case 1: h.put(x.engine()()); break; case 2: x.distribution().reset(); break; case 3: { const G& c = x; h.put((c.min)()); h.put((c.max)()); h.put(c.engine() == first.engine()); break; } default: { G c(x); h.put(c()); h.put(c()); } } return h.h; } };
struct UA : Actor { typedef br::uniform_01<br::minstd_rand, double> U; U first, x; UA(unsigned s) : first(br::minstd_rand(s)), x(first) { name = "uniform_01<minstd_rand>"; }
    AP twin() const override { return AP(new UA(*this)); } void restart() override { x = first; } int muts() const override { return 2; } int ops() const override { return 4; }
    const char* opname(int o) const override { static const char* const n[] = {"draw", "reset", "write", "copy and draw"}; return n[o]; }
    uint64_t op(int o, int) override { Hash h; switch(o) { case 0: h.put(x()); break; case 1: x.reset(); break; case 2: { std::ostringstream s; s << x; h.put(s.str()); break; } default: { U c(x); h.put(c()); } } return h.h; } };
struct RA : Actor { br::mt19937 e0, e; br::random_number_generator<br::mt19937, int> g; RA(unsigned s) : e0(s), e(s), g(e) { name = "random_number_generator"; } RA(const RA& o) : Actor(o), e0(o.e0), e(o.e), g(e) {}
    AP twin() const override { return AP(new RA(*this)); } void restart() override { e = e0; } int muts() const override { return 2; } int ops() const override { return 3; }
    const char* opname(int o) const override { static const char* const n[] = {"draw(6)", "draw(1000)", "compare"}; return n[o]; }
    uint64_t op(int o, int) override { Hash h; if(o < 2) h.put(g(o ? 1000 : 6)); else h.put(e == e0); return h.h; } };
struct SA : Actor { br::seed_seq s; SA(unsigned k) : s{k, 2u, k * k, 77u} { name = "seed_seq"; }
    AP twin() const override { return AP(new SA(*this)); } void restart() override {} int muts() const override { return 1; } int ops() const override { return 4; }
    const char* opname(int o) const override { static const char* const n[] = {"generate 3", "generate 40", "param", "copy and generate"}; return n[o]; }
    uint64_t op(int o, int) override { Hash h; std::vector<uint32_t> v(o == 0 ? 3 : 40, 9); if(o < 2) { s.generate(v.begin(), v.end()); h.put(v); } else if(o == 2) { std::vector<uint32_t> w; s.param(std::back_inserter(w)); h.put(w); h.put(s.size()); } else { br::seed_seq t(s); t.generate(v.begin(), v.end()); h.put(v); } return h.h; } };
static void two(const std::string& n, std::function<AP()> f, std::function<AP()> g, int cost) { add(n, [=] { AP a = f(), b = g(); pair(*a, *b, cost); single(*a, cost); sample(n); }); }
template<class Q> static void qrng(const char* n, int top) { for(int i = 1; i <= top; ++i) for(int j = 1; j <= top; ++j) two(fmt("%s/%d,%d", n, i, j), [=] { return AP(new QA<Q>(n, i)); }, [=] { return AP(new QA<Q>(n, j)); }, 0); two(fmt("%s/40,3", n), [=] { return AP(new QA<Q>(n, 40)); }, [=] { return AP(new QA<Q>(n, 3)); }, 1); two(fmt("%s/60,50", n), [=] { return AP(new QA<Q>(n, 60)); }, [=] { return AP(new QA<Q>(n, 50)); }, 2); }
template<class D> static void vg(const char* n, const D& c, const D& d) { two(fmt("variate_generator<%s>", n), [=] { return AP(new VA<D>(n, c, 1)); }, [=] { return AP(new VA<D>(n, d, 2)); }, 0); }
static void body() {
#ifdef RACES
    int top = 3;
#else
    int top = thorough() ? 6 : 4;
#endif
    qrng<br::sobol>("sobol", top); qrng<br::niederreiter_base2>("niederreiter_base2", top); qrng<br::faure>("faure", top);
    two("sobol,niederreiter", [] { return AP(new QA<br::sobol>("sobol", 3)); }, [] { return AP(new QA<br::niederreiter_base2>("niederreiter_base2", 3)); }, 0); two("faure,niederreiter", [] { return AP(new QA<br::faure>("faure", 3)); }, [] { return AP(new QA<br::niederreiter_base2>("niederreiter_base2", 2)); }, 0); two("faure,sobol", [] { return AP(new QA<br::faure>("faure", 3)); }, [] { return AP(new QA<br::sobol>("sobol", 2)); }, 0);
    vg("normal", br::normal_distribution<>(0, 1), br::normal_distribution<>(5, 2)); vg("exponential", br::exponential_distribution<>(1), br::exponential_distribution<>(3)); vg("discrete", br::discrete_distribution<>({1, 2, 3}), br::discrete_distribution<>({5, 0, 3, 4}));  vg("sphere", br::uniform_on_sphere<>(3), br::uniform_on_sphere<>(5));
    two("uniform_01", [] { return AP(new UA(1)); }, [] { return AP(new UA(2)); }, 0); two("random_number_generator", [] { return AP(new RA(1)); }, [] { return AP(new RA(2)); }, 0); two("seed_seq", [] { return AP(new SA(1)); }, [] { return AP(new SA(2)); }, 0);
    two("variate_generator,normal", [] { return AP(new VA<br::normal_distribution<>>("normal", br::normal_distribution<>(), 1)); }, [] { return AP(new VA<br::exponential_distribution<>>("exponential", br::exponential_distribution<>(), 1)); }, 0);
}
#endif
MC_MAIN(body())
