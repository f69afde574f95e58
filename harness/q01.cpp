// Q01 and Q03 (QPART 3): quasi-random generators as positions of one fixed sequence; ends and bad dimensions.
#include "mc.hpp"
#include <boost/random/sobol.hpp>
#include <boost/random/niederreiter_base2.hpp>
#include <boost/random/faure.hpp>
#include <memory>
using namespace mc; namespace br = boost::random; typedef unsigned long long ull; typedef unsigned __int128 u128;
template<class E> struct Model { typedef typename E::result_type R; size_t D; std::vector<R> seq; bool whole = false; std::vector<E> at; // at[p]: an engine that has drawn p values
    explicit Model(size_t d, size_t n) : D(d) { E e(d); at.push_back(e); try { while(seq.size() < n) { seq.push_back(e()); at.push_back(e); } } catch(std::range_error&) { whole = true; } }
    size_t last() const { return seq.size(); }
    // is e at position p?
    bool is(const E& e, size_t p, const std::string& how, bool deep = true) { ++g_states; auto bad = [&](const char* key, const std::string& s) { fail(key, fmt("dimension %zu: ", D) + how + ": " + s); return false; };
        if(e.dimension() != D) return bad("dimension", fmt("dimension() is %zu", e.dimension()));
        if(!(e == at[p]) || e != at[p] || !(at[p] == e)) return bad("equality", fmt("not equal to a generator that drew %zu values", p));
        if(p > 0 && (e == at[p - 1] || !(at[p - 1] != e))) return bad("equality", fmt("equal to a generator that drew %zu values, not %zu", p - 1, p));
        if(p < last() && (e == at[p + 1] || !(e != at[p + 1]))) return bad("equality", fmt("equal to a generator that drew %zu values, not %zu", p + 1, p));
        if(p + D <= last() && e == at[p + D]) return bad("equality", fmt("equal to a generator that drew %zu values, not %zu", p + D, p)); if(p >= D && at[p - D] == e) return bad("equality", fmt("equal to a generator that drew %zu values, not %zu", p - D, p));
        E c(e); size_t n = std::min(last() - p, deep ? 3 * D + 2 : D + 1); for(size_t i = 0; i < n; ++i) { R v = c(); ++g_trans; if(v != seq[p + i]) return bad("sequence", fmt("value %zu is %.17Lg, the sequence has %.17Lg", p + i, (long double)v, (long double)seq[p + i])); }
        if(n == last() - p && whole && p + n == last()) { for(int k = 0; k < 2; ++k) try { R v = c(); return bad("end", fmt("a value (%.17Lg) is returned past the end of the sequence", (long double)v)); } catch(std::range_error&) {} }
        return true; }
    struct Op { std::string name; std::function<long(E&, long p)> f; }; // new position, or -1: end passed (must throw range_error)
};
static std::vector<uint64_t> skips(size_t D, size_t total, bool all) { std::vector<uint64_t> v; if(all) { for(uint64_t z = 0; z <= total; ++z) v.push_back(z); return v; } for(uint64_t z = 0; z <= 2 * D + 1; ++z) v.push_back(z); for(uint64_t m : {3, 4, 7, 8, 9, 15, 16, 31, 63, 64, 65}) for(int d = -1; d <= 1; ++d) if(m * D + d <= total) v.push_back(m * D + d); return v; }
template<class E> static std::vector<typename Model<E>::Op> ops(Model<E>& m, const std::vector<uint64_t>& zs, const std::vector<size_t>& seeds, bool few) { typedef typename Model<E>::Op Op; std::vector<Op> o; size_t D = m.D, n = m.last();
    for(size_t k = 1; k <= D + 1; k += few ? D : 1) o.push_back({fmt("draw %zu", k), [=](E& e, long p) -> long { if(p + k > n) return -2; for(size_t i = 0; i < k; ++i) e(); return p + k; }});
    for(uint64_t z : zs) o.push_back({fmt("discard(%llu)", (ull)z), [=](E& e, long p) -> long { if(p + z > n) return -2; e.discard(z); return p + z; }});
    o.push_back({"seed()", [=](E& e, long) -> long { e.seed(); return 0; }});
    for(size_t s : seeds) if(s * D < n) o.push_back({fmt("seed(%zu)", s), [=](E& e, long) -> long { e.seed(s); return s * D; }});
    o.push_back({"generate", [=](E& e, long p) -> long { size_t k = std::min<size_t>(2 * D + 1, n - p); std::vector<typename E::result_type> v(k + 1, typename E::result_type(7)); e.generate(v.begin(), v.begin() + k); for(size_t i = 0; i < k; ++i) if(v[i] != m.seq[p + i]) fail("generate", fmt("dimension %zu: generate from position %ld writes a wrong element %zu", D, p, i)); if(v[k] != 7) fail("generate", "generate writes past the range"); return p + k; }});
    o.push_back({"copy", [=](E& e, long p) -> long { E c(e); E d(e); if(p < (long)n) d(); e = c; return p; }});
    // save and load into others: fresh, used, of another dimension
    struct T { const char* n; std::function<E()> mk; }; std::vector<T> ts{{"a fresh one", [=] { return E(D); }}, {"one of dimension 1", [] { E x(1); x.discard(3); return x; }}, {"one of a larger dimension", [=] { E x(D + 1); x.seed(2); x(); return x; }}, {"one of a larger dimension at the start", [=] { return E(D + 1); }}, {"one of dimension 1 at the start", [] { return E(1); }}}; for(size_t q : {size_t(1), D, D + 1, 2 * D, n > 9 * D ? 9 * D - 1 : 0}) if(q < n) ts.push_back({"a used one", [=, &m] { return m.at[q]; }}); for(size_t q : {size_t(0), D, 2 * D}) ts.push_back({"one seeded at a position", [=] { E x(D); x.seed(q / D); return x; }});
    for(auto& t : ts) { auto mk = t.mk; if(few && ts.size() > 4 && (&t - &ts[0]) % 3 != 0) continue; o.push_back({std::string("save and load into ") + t.n, [=](E& e, long p) -> long { std::stringstream s; s << e << ' ' << 4711; E x = mk(); int k = 0; s >> x >> k; if(!s || k != 4711) fail("stream", fmt("dimension %zu: reading does not leave the following number in the stream", D)); std::wstringstream w; w << e; E y = mk(); w >> y; if(x != y) fail("stream", "wide and narrow text differ"); if(x != e) fail("equality", fmt("dimension %zu: the generator read does not equal the one written at position %ld", D, p)); e = x; return p; }}); o.push_back({std::string("assign to ") + t.n, [=](E& e, long p) -> long { E x = mk(); x = e; e = E(D); e = x; return p; }}); }
    return o; }
// every op sequence of the given depth from each start position
template<class E> static void explore(const char* nm, size_t D, size_t N, bool all, int depth, bool few, size_t step) { Model<E> m(D, N); auto zs = skips(D, std::min(m.last(), N), all); std::vector<size_t> seeds; for(size_t s = 0; s * D < m.last() && (all || s < 20); ++s) seeds.push_back(s); for(size_t s : {31, 32, 63, 64, 100}) if(!all && s * D < m.last()) seeds.push_back(s); if(few) { std::vector<size_t> t; for(size_t i = 0; i < seeds.size(); i += 3) t.push_back(seeds[i]); seeds = t; std::vector<uint64_t> z2; for(size_t i = 0; i < zs.size(); i += zs.size() > 60 ? 7 : zs.size() > 20 ? 3 : 1) z2.push_back(zs[i]); zs = z2; } auto os = ops<E>(m, zs, seeds, few); size_t limit = m.last() > 3 * D + 2 && !m.whole ? m.last() - 3 * D - 2 : m.last();
    std::function<bool(const E&, size_t, int, std::vector<const char*>&)> go = [&](const E& e, size_t p, int d, std::vector<const char*>& hist) { for(auto& o : os) { E x(e); ++g_execs; ++g_trans; hist.push_back(o.name.c_str()); auto how = [&] { std::string s; for(auto h : hist) s += std::string(s.empty() ? "" : ", ") + h; return std::string(nm) + ": after " + s; }; long q; try { q = o.f(x, p); } catch(std::exception& ex) { fail("exception", how() + fmt(" at position %zu: %s", p, ex.what())); return false; } if(q >= 0 && (size_t)q <= limit) { ++g_traces; if(!m.is(x, q, d == 1 || (g_execs & 15) == 0 ? how() : std::string("(a sequence of ") + std::to_string(hist.size()) + " operations ending in " + o.name + ")", d == 1)) { m.is(x, q, how()); return false; } if(d > 1 && !go(x, q, d - 1, hist)) return false; } hist.pop_back(); } return true; };
    for(size_t p = 0; p <= limit; p += step) { std::vector<const char*> h; std::string st = fmt("drawing %zu", p); h.push_back(st.c_str()); if(!m.is(m.at[p], p, std::string(nm) + ": " + st)) return; if(!go(m.at[p], p, depth, h)) return; } sample(fmt("%s dimension %zu: %zu operations, depth %d", nm, D, os.size(), depth)); }
typedef br::sobol_engine<uint16_t, 4> S4; typedef br::sobol_engine<uint32_t, 5> S5; typedef br::sobol_engine<uint16_t, 16> S16; typedef br::sobol_engine<uint64_t, 20> S20; typedef br::niederreiter_base2_engine<uint16_t, 4> N4; typedef br::niederreiter_base2_engine<uint32_t, 5> N5; typedef br::niederreiter_base2_engine<uint32_t, 32> N32; typedef br::faure_engine<double, uint64_t> F; typedef br::faure_engine<float, uint16_t> F16;
#define Q1(T, nm, D, N, all, depth, few, step) add(fmt("%s/%d/depth%d", nm, (int)D, depth).c_str(), [=] { explore<T>(nm, D, N, all, depth, few, step); });
#ifndef QPART
#define QPART 1
#endif
static void body() {
#if QPART == 1
    bool t = thorough();
    for(int D : {1, 2, 3, 4, 6}) { Q1(S4, "sobol<u16,4>", D, 1000, true, 2, false, t ? 1 : D > 3 ? 5 : 1); Q1(N4, "niederreiter<u16,4>", D, 1000, true, 2, false, t ? 1 : D > 3 ? 5 : 1); Q1(S5, "sobol<u32,5>", D, 1000, true, 1, false, 1); Q1(N5, "niederreiter<u32,5>", D, 1000, true, 1, false, 1); }
    for(int D : {1, 2, 3}) { Q1(S4, "sobol<u16,4>", D, 1000, true, 3, true, t ? 1 : 5); Q1(N4, "niederreiter<u16,4>", D, 1000, true, 3, true, t ? 1 : 5); Q1(F, "faure", D, 30 * D, false, 3, true, t ? 2 : 13); }
    for(int D : {1, 2, 3, 5, 7, 13, 40}) { size_t N = (t ? 400 : 140) * D + 50; size_t st = t ? 7 : D + 1 + (N > 2000 ? N / 40 : N / 80); Q1(br::sobol, "sobol", D, N, false, 1, false, st); Q1(br::niederreiter_base2, "niederreiter_base2", D, N, false, 1, false, st); Q1(br::faure, "faure", D, N, false, 1, false, st); Q1(F16, "faure<float,u16>", D, N, false, 1, false, st); Q1(S20, "sobol<u64,20>", D, N, false, 1, false, st); Q1(N32, "niederreiter<u32,32>", D, N, false, 1, false, st); }
    for(int D : {2, 3}) { Q1(br::sobol, "sobol", D, 130 * D, false, 2, true, 17); Q1(br::niederreiter_base2, "niederreiter_base2", D, 130 * D, false, 2, true, 17); Q1(br::faure, "faure", D, 130 * D, false, 2, true, 17); }
    // far positions: long skips agree with seeding, and with shorter skips, and with drawing across carries
    add("far positions", [] { auto far = [](auto tag, const char* nm, size_t D) { typedef decltype(tag) E; for(int b = 1; b < 63; ++b) for(int d = -2; d <= 1; ++d) { uint64_t s = (1ULL << b) + d; if(d == -2 && b == 1) continue; if((uint64_t)(1ULL << 63) / D < s) continue; E a(D); a.seed(s); E x(D); x.discard(s * D); E y(D); y.discard(s / 2 * D + 1); y.discard((s - s / 2) * D - 1); E z(D); z.seed(s - 1); for(size_t i = 0; i < D; ++i) z(); E w(D); w.discard(s * D - 1); w(); std::stringstream st; st << x; E v(D); st >> v; ++g_traces; g_execs += 6; g_states += 6; if(!(a == x) || !(x == y) || !(y == z) || !(z == w) || !(v == x)) fail("far", fmt("%s dimension %zu: seeding at %llu, skipping there and drawing there compare different", nm, D, (ull)s)); for(size_t i = 0; i < 2 * D + 1; ++i) { auto q = a(); ++g_trans; if(q != x() || q != y() || q != z() || q != w() || q != v()) { fail("far", fmt("%s dimension %zu: seeding at %llu, skipping there and drawing there give different values", nm, D, (ull)s)); return; } } } }; for(size_t D : {1, 2, 3, 5, 8}) { far(br::sobol(1), "sobol", D); far(br::niederreiter_base2(1), "niederreiter_base2", D); far(br::faure(1), "faure", D); } });
#else
    // ends of the sequences: every way to reach or pass the end
    auto ends = [](auto tag, const char* nm, size_t D, uint64_t points) { typedef decltype(tag) E; typedef typename E::result_type R; std::string who = fmt("%s dimension %zu", nm, D); E e(D); std::vector<R> seq; std::vector<E> at; at.push_back(e); uint64_t L = points * D; for(uint64_t i = 0; i < L; ++i) { try { seq.push_back(e()); at.push_back(e); } catch(std::exception& x) { fail("early-end", who + fmt(": value %llu of %llu is not produced: %s", (ull)i, (ull)L, x.what())); return; } } g_states += L;
        auto throws = [&](const char* what, E& x, std::function<void(E&)> f) { ++g_execs; ++g_traces; E was(x); try { f(x); } catch(std::range_error&) { if(!(x == was)) { fail("refused-state", who + ": " + what + " is refused, but the generator does not compare equal to what it was"); return false; } E c(x); for(size_t i = 0; i < 2 * D + 1; ++i) { R a = R(), b = R(); int ea = 0, eb = 0; try { a = c(); } catch(std::range_error&) { ea = 1; } try { b = was(); } catch(std::range_error&) { eb = 1; } ++g_trans; if(ea != eb || a != b) { fail("refused-state", who + ": " + what + fmt(" is refused, but changes the value drawn %zu draws later", i)); return false; } if(ea) break; } return true; } catch(std::exception& ex) { fail("wrong-exception", who + ": " + what + " throws " + ex.what()); return false; } fail("no-exception", who + ": " + what + " past the end of the sequence is not reported"); return false; };
        auto usable = [&](E& x) { x.seed(); for(uint64_t i = 0; i < std::min<uint64_t>(L, 2 * D + 1); ++i) if(x() != seq[i]) { fail("reseed", who + ": after an error and seed() the sequence is wrong"); return; } x.seed(1); for(uint64_t i = D; i < std::min<uint64_t>(L, 3 * D); ++i) if(x() != seq[i]) { fail("reseed", who + ": after an error and seed(1) the sequence is wrong"); return; } };
        { E x(e); for(int k = 0; k < 3; ++k) if(!throws("a draw", x, [](E& y) { y(); })) return; usable(x); }
        // skip from every position by every amount around the end, and by huge amounts
        uint64_t lo = L > 40 * D ? L - 40 * D : 0; for(uint64_t p = 0; p <= L; p = p < lo ? p + std::max<uint64_t>(1, L / 300) : p + 1) { for(uint64_t z : {L - p, L - p + 1, L - p + D, L - p + 2 * D + 1, L + 5, 2 * L, L * 16, (uint64_t)1 << 16, (uint64_t)1 << 20, (uint64_t)1 << 32, (uint64_t)1 << 63, ~(uint64_t)0, ~(uint64_t)0 - 1, ~(uint64_t)0 - D, ~(uint64_t)0 - p, ~(uint64_t)0 - p + 1, ~(uint64_t)0 / D, ~(uint64_t)0 / D + 1, ~(uint64_t)0 / D * D}) { E x(at[p]); if(z <= L - p) { x.discard(z); ++g_execs; if(!(x == at[p + z])) fail("end", who + fmt(": discard(%llu) from %llu is not at the end", (ull)z, (ull)p)); if(p + z == L) throws("a draw", x, [](E& y) { y(); }); continue; } if(!throws(fmt("discard(%llu) from position %llu", (ull)z, (ull)p).c_str(), x, [=](E& y) { y.discard(z); })) return; usable(x); } }
        // a skip that falls short of the end
        for(uint64_t p = lo; p < L; ++p) for(uint64_t z = 0; z <= L - p && z < 3 * D + 2; ++z) { E x(at[p]); try { x.discard(L - p - z); } catch(std::exception& ex) { fail("early-end", who + fmt(": discard to position %llu of %llu throws", (ull)(L - z), (ull)L)); return; } for(uint64_t i = L - z; i < L; ++i) { ++g_trans; if(x() != seq[i]) { fail("end", who + fmt(": wrong value %llu after a skip from %llu", (ull)i, (ull)p)); return; } } }
        // seeding
        typedef typename E::size_type S; for(uint64_t s = 0; s <= (uint64_t)std::numeric_limits<S>::max() && s < points + 3 * points / 2 + 40; s = s + 40 < points ? s + std::max<uint64_t>(1, points / 300) : s + 1) { E x(D); x.discard(1); if(s < points) { x.seed((S)s); ++g_execs; for(uint64_t i = s * D; i < std::min(L, (s + 2) * D); ++i) if(x() != seq[i]) { fail("seed", who + fmt(": seed(%llu) is not at point %llu", (ull)s, (ull)s)); return; } } else { if(!throws(fmt("seed(%llu)", (ull)s).c_str(), x, [=](E& y) { y.seed((S)s); })) return; usable(x); } }
        for(uint64_t s : {(uint64_t)std::numeric_limits<S>::max(), (uint64_t)std::numeric_limits<S>::max() - 1, (uint64_t)std::numeric_limits<S>::max() / 2}) if(s >= points) { E x(D); if(!throws(fmt("seed(%llu)", (ull)s).c_str(), x, [=](E& y) { y.seed((S)s); })) return; usable(x); }
        // saved at the end, and texts naming a place past the end
        { std::stringstream s; s << e; E x(D); s >> x; if(x != e) fail("end", who + ": a generator saved at its end does not compare equal"); throws("a draw", x, [](E& y) { y(); }); } { std::stringstream s; s << D << ' ' << points << ' ' << 0; E x(D); if((uint64_t)std::numeric_limits<S>::max() >= points) { throws("reading a saved position", x, [&](E& y) { s >> y; }); usable(x); } } sample(who + fmt(": %llu points", (ull)points)); };
#define END(T, nm, pts) for(size_t D : {1, 2, 3, 5}) add(fmt("end %s/%zu", nm, D).c_str(), [=] { ends(T(1), nm, D, pts); })
    END(S4, "sobol<u16,4>", 15); END(N4, "niederreiter<u16,4>", 15); END(S5, "sobol<u32,5>", 31); END(N5, "niederreiter<u32,5>", 31); typedef br::sobol_engine<uint16_t, 9> S9; typedef br::sobol_engine<uint16_t, 15> S15; typedef br::niederreiter_base2_engine<uint16_t, 16> N16; END(S9, "sobol<u16,9>", 511); END(S15, "sobol<u16,15>", 32767); END(S16, "sobol<u16,16>", 65535); END(N16, "niederreiter<u16,16>", 65535); END(F16, "faure<float,u16>", 65536); typedef br::faure_engine<double, uint16_t> FD16; END(FD16, "faure<double,u16>", 65536);
    // the 64-bit generators at the end of their range
    auto far = [](auto tag, const char* nm, uint64_t lastpoint) { typedef decltype(tag) E; for(size_t D : {1, 2, 3, 7}) { std::string who = fmt("%s dimension %zu", nm, D); E e(D); e.seed(lastpoint); ++g_traces; for(size_t i = 0; i < D; ++i) e(); ++g_execs; for(int k = 0; k < 2; ++k) { try { e(); fail("no-exception", who + ": a draw past the end is not reported"); } catch(std::range_error&) {} E f(D); f.seed(lastpoint); for(size_t i = 0; i < D; ++i) f(); if(e != f) fail("refused-state", who + ": a refused draw moves the generator"); } { E b(D); b.seed(lastpoint - 1); E c(D); c.seed(lastpoint); for(size_t i = 0; i < D; ++i) b(); if(b != c) fail("end", who + ": drawing to the last point and seeding there differ"); for(size_t i = 0; i < D; ++i) if(b() != c()) fail("end", who + ": drawing to the last point and seeding there differ"); } for(uint64_t z : {(uint64_t)1, (uint64_t)D, (uint64_t)1 << 63, ~(uint64_t)0, ~(uint64_t)0 - 1, ~(uint64_t)0 - D}) { E x(e); ++g_execs; try { x.discard(z); fail("no-exception", who + fmt(": discard(%llu) past the end is not reported", (ull)z)); } catch(std::range_error&) {} if(x != e) fail("refused-state", who + fmt(": a refused discard(%llu) moves the generator", (ull)z)); x.seed(); E y(D); for(size_t i = 0; i < 2 * D; ++i) if(x() != y()) fail("reseed", who + ": after an error and seed() the sequence is wrong"); }
        for(size_t p = 0; p <= D; ++p) for(uint64_t z : {~(uint64_t)0, ~(uint64_t)0 - 1}) { E x(D); for(size_t i = 0; i < p; ++i) x(); ++g_execs; u128 dest = (u128)p + z, L = ((u128)lastpoint + 1) * D; bool thrown = false; try { x.discard(z); } catch(std::range_error&) { thrown = true; } if(thrown != (dest > L)) { fail("far-skip", who + fmt(": discard(%llu) after %zu draws %s", (ull)z, p, thrown ? "is refused" : "is accepted past the end")); continue; } if(!thrown) { E y(D); y.seed((uint64_t)((dest - 1) / D)); for(size_t i = 0; i < (size_t)((dest - 1) % D + 1); ++i) y(); if(x != y) fail("far-skip", who + fmt(": discard(%llu) after %zu draws compares different from seeding there", (ull)z, p)); if(dest < L) try { if(x() != y()) fail("far-skip", who + fmt(": discard(%llu) after %zu draws is at a wrong place", (ull)z, p)); } catch(std::range_error&) { fail("far-skip", who + fmt(": discard(%llu) after %zu draws cannot draw", (ull)z, p)); } } } } };
    add("far end sobol", [=] { far(br::sobol(1), "sobol", ~0ULL - 1); }); add("far end niederreiter", [=] { far(br::niederreiter_base2(1), "niederreiter_base2", ~0ULL - 1); }); add("far end faure", [=] { far(br::faure(1), "faure", ~0ULL); });
    // dimensions
    auto dims = [](auto tag, const char* nm, std::vector<size_t> good, std::vector<size_t> bad) { typedef decltype(tag) E; for(size_t d : good) { ++g_execs; try { E e(d); if(e.dimension() != d) fail("dimension", fmt("%s(%zu): dimension() is %zu", nm, d, e.dimension())); for(size_t i = 0; i < 2 * d + 1; ++i) { auto v = e(); if(!(v >= (E::min)() && v <= (E::max)())) fail("range", fmt("%s(%zu): value outside [min(), max()]", nm, d)); ++g_trans; } ++g_states; } catch(std::exception& x) { fail("dimension", fmt("%s(%zu) throws %s", nm, d, x.what())); } } for(size_t d : bad) { ++g_execs; ++g_traces; try { E e(d); fail("dimension", fmt("%s(%zu) is accepted", nm, d)); } catch(std::invalid_argument&) {} catch(std::exception& x) { fail("dimension", fmt("%s(%zu) throws %s, not invalid_argument", nm, d, x.what())); }
            // a text naming a bad dimension
            for(size_t have : {1, 3}) { E e(have); for(int i = 0; i < 5; ++i) e(); E was(e); std::stringstream s; s << d << ' ' << 1 << ' ' << 0; ++g_execs; try { s >> e; fail("dimension", fmt("%s: text with dimension %zu is accepted", nm, d)); } catch(std::invalid_argument&) {} catch(std::exception& x) { fail("dimension", fmt("%s: text with dimension %zu throws %s", nm, d, x.what())); } if(e.dimension() != have) fail("dimension", fmt("%s: a failed read changes the dimension", nm)); else { E c(e); if(c != was) fail("refused-state", fmt("%s: a read refused for its dimension %zu changes the generator", nm, d)); else for(size_t i = 0; i < 2 * have + 1; ++i) if(c() != was()) { fail("refused-state", fmt("%s: a read refused for its dimension %zu changes the values", nm, d)); break; } } e.seed(2); E f(have); f.seed(2); for(int i = 0; i < 9; ++i) if(e() != f()) { fail("reseed", fmt("%s: after a failed read and seed(2) the sequence is wrong", nm)); break; } } } sample(fmt("%s: %zu dimensions", nm, good.size())); };
    auto range = [](size_t a, size_t b, size_t st) { std::vector<size_t> v; for(size_t i = a; i < b; i += st) v.push_back(i); v.push_back(b); return v; }; std::vector<size_t> huge{(size_t)1 << 16, (size_t)1 << 31, ((size_t)1 << 32) + 1, ~(size_t)0, ~(size_t)0 / 2 + 2, ((size_t)1 << 58) + 1}; auto plus = [=](std::vector<size_t> v) { v.insert(v.end(), huge.begin(), huge.end()); return v; };
    add("dimensions sobol", [=] { dims(br::sobol(1), "sobol", range(1, 3667, thorough() ? 3 : 97), plus({0, 3668, 3669, 4000, 10000})); }); add("dimensions niederreiter", [=] { dims(br::niederreiter_base2(1), "niederreiter_base2", range(1, 4720, thorough() ? 13 : 271), plus({0, 4721, 4722, 5000, 10000})); }); add("dimensions faure", [=] { dims(br::faure(1), "faure", range(1, 1117, 1), plus({0, 1118, 1119, 2000, 10000})); });
    // narrow generators: more dimensions than their words have bits, and polynomials that do not fit the type
    add("narrow dimensions", [=] { auto narrow = [](auto tag, const char* nm) { typedef decltype(tag) E; for(size_t d = 1; d <= 3667; d += d < 60 ? 1 : 211) { ++g_execs; E e(d); for(size_t i = 0; i < 3 * d; ++i) { auto v = e(); ++g_trans; if(v > (E::max)()) { fail("range", fmt("%s(%zu): value above max()", nm, d)); return; } } } }; narrow(S4(1), "sobol<u16,4>"); narrow(S5(1), "sobol<u32,5>"); narrow(S16(1), "sobol<u16,16>"); narrow(N4(1), "niederreiter<u16,4>"); narrow(N5(1), "niederreiter<u32,5>"); narrow(N16(1), "niederreiter<u16,16>");
        typedef br::sobol_engine<unsigned char, 8> S8; typedef br::niederreiter_base2_engine<unsigned char, 8> N8; auto fits = [](auto tag, const char* nm) { typedef decltype(tag) E; bool thrown = false; for(size_t d = 1; d <= 200; ++d) { ++g_execs; bool t = false; try { E e(d); e(); } catch(std::range_error&) { t = true; } if(thrown && !t) fail("polynomial", fmt("%s(%zu) is accepted though a smaller dimension is not", nm, d)); thrown = t; } if(!thrown) fail("polynomial", fmt("%s: polynomials that do not fit the type are accepted", nm)); }; fits(S8(1), "sobol<u8,8>"); fits(N8(1), "niederreiter<u8,8>"); });
#endif
}
MC_MAIN({ body(); })
