// D05: discrete_distribution draws each index with its normalised weight.
#include "dyneng.hpp"
#include <boost/random/discrete_distribution.hpp>
#include <list>
using namespace mc; namespace br = boost::random; typedef long double LD;
template<class W> static std::string show(const std::vector<W>& w) { std::string s = "{"; for(size_t i = 0; i < w.size(); ++i) s += (i ? "," : "") + (std::is_integral<W>::value ? std::to_string((ll)w[i]) : fmt("%.17Lg", (LD)w[i])); return s + "}"; }
template<class F> static void lists(const std::vector<int>& alpha, size_t maxlen, F f) {
    for(size_t n = 1; n <= maxlen; ++n) { std::vector<size_t> ix(n); for(;;) { std::vector<int> w(n); int s = 0; for(size_t i = 0; i < n; ++i) { w[i] = alpha[ix[i]]; s += w[i]; } if(s) f(w); size_t k = 0; while(k < n && ++ix[k] == alpha.size()) ix[k++] = 0; if(k == n || too_many()) break; } }
}
// ---- integral weights, small: every engine output sequence
template<class I, class W> static void exact(const char* who, const std::vector<int>& alpha, size_t maxlen, W scale) {
    lists(alpha, maxlen, [&](const std::vector<int>& w0) {
        std::vector<W> w(w0.begin(), w0.end()); for(auto& x : w) x = W(x * scale); uint64_t sum = 0; for(W x : w) sum += x; typedef br::discrete_distribution<I, W> D;
        const D stored(w.begin(), w.end()); typename D::param_type pm(w); const D other{W(1), W(2)}; size_t n = w.size();
        std::vector<W> pr = stored.probabilities(), pp = pm.probabilities(); if(pr != w || pp != w) { if(scale == 1) fail("probabilities", fmt("%s: weights %s, probabilities() %s, parameters report %s", who, show(w).c_str(), show(pr).c_str(), show(pp).c_str())); }
        if((stored.min)() != 0 || (stored.max)() != I(n - 1)) fail("minmax", fmt("%s: weights %s: min/max", who, show(w).c_str()));
        for(uint64_t R : {2u, 6u, 12u}) for(int mode = 0; mode < 2; ++mode) { size_t dep = 1; double c = R; while(c * R <= (thorough() ? 40000 : 2100)) { c *= R; ++dep; }
            DynEng<uint32_t> e = dyn<uint32_t>(0, R - 1); UseTape u; Chooser ch; ch.maxdepth = dep; u.t.ch = &ch; std::vector<std::vector<uint64_t>> t(dep + 1, std::vector<uint64_t>(n));
            do { ch.begin(); ++g_execs; u.t.log.clear(); try { I r = mode ? other(e, pm) : stored(e); if(r < 0 || (size_t)r >= n) { fail("range", fmt("%s: weights %s returned %lld", who, show(w).c_str(), (ll)r)); return; } ++t[ch.pos][r]; ++g_states; } catch(Limit&) {} } while(ch.advance());
            for(auto& l : t) { uint64_t tot = 0; for(auto x : l) tot += x; for(size_t i = 0; i < n; ++i) if((u128)l[i] * sum != (u128)tot * (uint64_t)w[i]) { fail(mode ? "law per call" : "law", fmt("%s: weights %s, engine of %llu values: index %zu comes from %llu of %llu sequences of equal length", who, show(w).c_str(), (ull)R, i, (ull)l[i], (ull)tot)); return; } } ++g_traces; }
    });
    sample(fmt("all weight lists of up to %zu values", maxlen));
}
// ---- integral weights, 16-bit: every value of the second engine value, exact counts; sums beyond the type
template<class W> static void exact16(const char* who) {
    std::vector<std::vector<long>> ls; long M = (std::numeric_limits<W>::max)();
    for(long a : {0L, 1L, 2L, M / 2, M - 1, M}) for(long b : {0L, 1L, M / 3, M - 1, M}) { ls.push_back({a, b}); for(long c : {0L, 1L, M / 2 + 1, M}) { ls.push_back({a, b, c}); if(thorough() || a == M || c == M) for(long d : {0L, 3L, M - 2}) ls.push_back({a, b, c, d}); } }
    ls.push_back({M, M, M, M, M, M, M, M}); ls.push_back({M, 0, M, 0, M, 0, M - 1}); ls.push_back({1, M, 2, M - 3, 5}); ls.push_back({M / 2, M / 2 + 1, 1}); ls.push_back({M, M - 1, M - 2, M - 3, M - 4});
    for(auto& l : ls) {
        uint64_t sum = 0; for(long x : l) sum += x; if(!sum) continue; std::vector<W> w(l.begin(), l.end()); size_t n = w.size(); typedef br::discrete_distribution<int, W> D; const D stored(w); typename D::param_type pm(w); const D other;
        if(stored.probabilities() != w || pm.probabilities() != w) fail("probabilities16", fmt("%s: weights %s, probabilities() %s", who, show(w).c_str(), show(stored.probabilities()).c_str()));
        for(int mode = 0; mode < 2; ++mode) {
            DynEng<uint16_t> e = dyn<uint16_t>(0, 65535); UseTape u; std::vector<uint64_t> c(n); uint64_t x0, x1; uint64_t limit = 9; u.t.fn = [&](uint64_t) -> uint64_t { return u.t.calls == 1 ? x0 : u.t.calls == 2 ? x1 : 0; };
            auto one = [&] { u.t.calls = 0; u.t.log.clear(); int r = mode ? other(e, pm) : stored(e); ++g_execs; ++g_states; if(r < 0 || (size_t)r >= n) { fail("range16", fmt("%s: weights %s returned %d", who, show(w).c_str(), r)); return false; } if(u.t.calls == limit) ++c[r]; return true; };
            x0 = 5; x1 = 5; if(!one()) return; limit = u.t.calls;   // engine values a draw without rejection uses
            if(limit == 1) { for(x0 = 0; x0 < 65536; ++x0) if(!one()) return; }
            else for(size_t b = 0; b < n; ++b) { x0 = 65536 / n * b + 3; for(x1 = 0; x1 < 65536; ++x1) if(!one()) return; }
            uint64_t tot = 0; for(auto x : c) tot += x; if(!tot) { fail("never16", fmt("%s: weights %s: nothing is ever returned with %llu engine values", who, show(w).c_str(), (ull)limit)); return; }
            for(size_t i = 0; i < n; ++i) if((u128)c[i] * sum != (u128)tot * (uint64_t)w[i]) { fail(mode ? "law16 per call" : "law16", fmt("%s: weights %s: index %zu comes from %llu of %llu equally likely draws", who, show(w).c_str(), i, (ull)c[i], (ull)tot)); return; } ++g_traces; }
    }
}
// ---- floating weights: switch points of the second coordinate located to the last bit
template<class W> static void measure(const char* who, const std::vector<W>& w) {
    typedef br::discrete_distribution<int, W> D; size_t n = w.size(); LD sum = 0; for(W x : w) sum += x; const D stored(w.begin(), w.end()); typename D::param_type pm(w); const D other{W(3), W(1)};
    LD eps = std::numeric_limits<W>::epsilon(); auto bad = [&](const char* k, const std::string& m) { fail(k, fmt("%s: weights %s: %s", who, show(w).c_str(), m.c_str())); };
    auto pr = stored.probabilities(), pp = pm.probabilities(); if(pr.size() != n || pp.size() != n) { bad("probabilities", "wrong number of probabilities"); return; }
    for(size_t i = 0; i < n; ++i) if(std::fabs(pr[i] - w[i] / sum) > 8 * n * eps || std::fabs(pp[i] - w[i] / sum) > 2 * n * eps || (w[i] == 0) != (pp[i] == 0)) { bad("probabilities", fmt("probability %zu reported as %.17Lg and %.17Lg, is %.17Lg", i, (LD)pr[i], (LD)pp[i], w[i] / sum)); return; }
    if((stored.max)() != int(n) - 1) { bad("max", "wrong max()"); return; }
    UseTape u; DynEng<uint64_t> e = dyn<uint64_t>(0, ~0ULL); uint64_t x0 = 0, x1 = 0; u.t.fn = [&](uint64_t) -> uint64_t { return u.t.calls == 1 ? x0 : u.t.calls == 2 ? x1 : 0; };
    auto run = [&](int mode, uint64_t y, uint64_t x) -> int { u.t.calls = 0; u.t.log.clear(); if(mode || n == 1) { x0 = y; x1 = 0; } else { x0 = x; x1 = y; } int r = mode ? other(e, pm) : stored(e); ++g_execs; ++g_states; if(r < 0 || (size_t)r >= n) { bad("range", fmt("returned %d", r)); return 0; } if(w[r] == 0) bad("zero weight", fmt("index %d with weight 0 drawn (%s, engine values %llu %llu)", r, mode ? "per call" : "stored", (ull)x0, (ull)x1)); return r; };
    const uint64_t top = ~0ULL - ((1ULL << (std::max(0, 64 - std::numeric_limits<W>::digits))) - 1), G = thorough() ? 4096 : 512, step = top / G + 1;
    for(int mode = 0; mode < 2; ++mode) { std::vector<LD> p(n); size_t rows = mode || n == 1 ? 1 : n;
        for(size_t b = 0; b < rows; ++b) { uint64_t x = (uint64_t)(((u128(1) << 64) / n) * b + 12345); uint64_t y = 0; int cur = run(mode, 0, x); LD start = 0;
            auto close = [&](LD at) { p[cur] += (at - start) / std::ldexp(1.0L, 64) / rows; start = at; };
            auto span = [&](auto&& self, uint64_t lo, uint64_t hi, int rl, int rh) -> void { if(rl == rh && hi - lo <= step) return; if(hi - lo == 1) { close(hi); cur = rh; return; } if(rl == rh) return; uint64_t m = lo + (hi - lo) / 2; int rm = run(mode, m, x); self(self, lo, m, rl, rm); self(self, m, hi, rm, rh); };
            for(uint64_t g = 0; g < G; ++g) { uint64_t hi = g + 1 == G ? top : (g + 1) * step; int rh = run(mode, hi, x); span(span, y, hi, cur, rh); y = hi; } for(ull z : {(ull)top, (ull)top - 1, ~0ULL, ~0ULL - 1, top + (~0ULL - top) / 2}) run(mode, z, x);
            close(std::ldexp(1.0L, 64)); }
        for(size_t i = 0; i < n; ++i) if(std::fabs(p[i] - w[i] / sum) > 8 * n * eps) { bad(mode ? "law per call" : "law", fmt("index %zu drawn with probability %.17Lg, should be %.17Lg", i, p[i], w[i] / sum)); return; } ++g_traces; }
}
template<class W> static void reals(const char* who) {
    std::vector<int> al{0, 1, 2, 5}; lists(al, thorough() ? 6 : 4, [&](const std::vector<int>& w0) { for(W sc : {W(1), W(0.1)}) { std::vector<W> w; for(int x : w0) w.push_back(x * sc); measure(who, w); } });
    for(size_t n = 1; n <= 30; ++n) { std::vector<W> w(n, W(0.1)); measure(who, w); w.push_back(0); measure(who, w); w.insert(w.begin(), 0); measure(who, w); for(size_t i = 0; i < w.size(); ++i) w[i] = W(1) / W(i + 3); measure(who, w); w.push_back(0); measure(who, w); for(size_t i = 0; i < w.size(); ++i) w[i] = i % 3 ? W(0.7) : W(0); w[1 % w.size()] = 1; measure(who, w); for(auto& x : w) x = W(1); w[0] = W(0.0001); measure(who, w); std::reverse(w.begin(), w.end()); w.push_back(0); measure(who, w); }
    typedef std::numeric_limits<W> L; W big = (L::max)() / 16, tiny = (L::min)() * 64; for(std::vector<W> w : {std::vector<W>{big, big}, {big, 1}, {1, big, 0}, {big, big, big, 0, big / 3}, {tiny, tiny * 3}, {tiny, 1}, {tiny, 0, tiny * 2}, {L::epsilon(), 1}, {1, L::epsilon() / 2, 1}, {W(1e-9), 1, W(1e9)}, {W(1e9), 1, W(1e-9), 0}}) measure(who, w);
}
// ---- constructor forms
template<class W> static void forms(const char* who) {
    typedef br::discrete_distribution<int, W> D; typedef typename D::param_type P;
    lists({0, 1, 3}, 4, [&](const std::vector<int>& w0) { std::vector<W> w(w0.begin(), w0.end()); D a(w.begin(), w.end()), b(w); std::list<W> li(w.begin(), w.end()); D c(li.begin(), li.end()); std::stringstream ss; for(W x : w) ss << x << ' '; std::istream_iterator<W> i1(ss), i2; D d(i1, i2); P p(w), p2(li), p3(li.begin(), li.end()); D f{p}, g; g.param(p); size_t n = w.size();
        ++g_states; if(!(a == b) || !(a == c) || !(a == d)) fail("forms", fmt("%s: weights %s: distributions from iterators, range, list and input iterators differ", who, show(w).c_str())); if(!(p == p2) || !(p == p3)) fail("param forms", fmt("%s: weights %s: parameters from vector and list differ", who, show(w).c_str())); if(!(f == g)) fail("set param", fmt("%s: weights %s: param() and construction differ", who, show(w).c_str()));
        auto fw = [&](double x) { int k = (int)std::floor((x - 2) / 0.5); return k >= 0 && (size_t)k < n ? w[k] : W(77); }; D h(n, 2.0, 2.0 + 0.5 * n, fw); P p4(n, 2.0, 2.0 + 0.5 * n, fw); if(!(h == a) || !(p4 == p)) fail("function form", fmt("%s: weights %s: function form differs", who, show(w).c_str())); if(n == 2) { D k{w[0], w[1]}; P q{w[0], w[1]}; if(!(k == a) || !(q == p)) fail("initializer form", fmt("%s: weights %s", who, show(w).c_str())); } ++g_traces; });
    std::vector<W> em; D e1(em.begin(), em.end()), e2(em), e3; std::vector<W> one(1, W(1)); UseTape u; u.t.fn = [](uint64_t s) { return s / 2; }; DynEng<uint32_t> e = dyn<uint32_t>(0, 99); for(D* x : {&e1, &e2, &e3}) { ++g_states; if((*x)(e) != 0 || (x->max)() != 0 || x->probabilities() != one) fail("empty", fmt("%s: an empty list is not the distribution that always gives 0", who)); } P pe; if(pe.probabilities() != one) fail("empty", fmt("%s: default parameters", who)); D z(0, 0.0, 1.0, [](double x) { return W(x == 0.5 ? 4 : 0); }); if((z.max)() != 0) fail("empty", "function form with 0 bins");
}
MC_MAIN({
#if PART == 0
    add("int weights", [] { exact<int, int>("int", {0, 1, 2, 3, 5}, thorough() ? 5 : 4, 1); }); add("int weights, longer", [] { exact<int, int>("int", {0, 1, 4}, thorough() ? 7 : 5, 1); }); add("unsigned weights", [] { exact<unsigned, unsigned>("unsigned", {0, 1, 7}, 4, 1); }); add("short weights", [] { exact<short, short>("short", {0, 1, 2, 6}, 3, 1); });
#elif PART == 1
    add("uint64 weights", [] { exact<std::size_t, uint64_t>("uint64", {0, 1, 2, 6}, 4, 1); }); add("int64 weights", [] { exact<int, int64_t>("int64", {0, 2, 3}, 4, 1); }); add("int16 sums beyond the type", [] { exact16<int16_t>("int16"); }); add("uint16 sums beyond the type", [] { exact16<uint16_t>("uint16"); });
#elif PART == 2
    add("float weights", [] { reals<float>("float"); }); add("forms", [] { forms<double>("double"); forms<float>("float"); forms<int>("int"); forms<uint64_t>("uint64"); });
#else
    add("double weights", [] { reals<double>("double"); }); add("long double weights", [] { reals<long double>("long double"); });
#endif
})
