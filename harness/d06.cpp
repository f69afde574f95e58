// D06: piecewise_constant_distribution and piecewise_linear_distribution.
#include "dyneng.hpp"
#include <boost/random/piecewise_constant_distribution.hpp>
#include <boost/random/piecewise_linear_distribution.hpp>
using namespace mc; namespace br = boost::random; typedef long double LD; typedef std::vector<LD> V;
static std::string show(const V& w) { std::string s = "{"; for(size_t i = 0; i < w.size(); ++i) s += (i ? "," : "") + fmt("%Lg", w[i]); return s + "}"; }
// Exact law of one draw, recovered from the outputs: first two engine values choose (piece, shape), the
// others place the value.  Every piece is reported as probability and density at its two ends.
struct Law { V mass, left, right; };
template<class Real, class F> static bool law(F draw, const V& b, int nbins, const std::string& who, Law& L, LD eps) {
    size_t m = b.size() - 1; L.mass.assign(m, 0); L.left.assign(m, 0); L.right.assign(m, 0);
    UseTape u; size_t skip = nbins > 1 ? 2 : 1; uint64_t x0 = 0, x1 = 0, z[2] = {0, 0}; u.t.fn = [&](uint64_t) -> uint64_t { size_t k = u.t.calls - 1;  if(k < skip) return k == 0 && nbins > 1 ? x0 : x1; k -= skip; return k < 2 ? z[k] : 0; };
    const size_t pre = skip;
    const uint64_t Z = ~0ULL / 1024 * 1023; /* not so near the top that a placement rounds up to the end and is drawn again */ auto bad = [&](const char* k, const std::string& d) { fail(k, who + ": " + d); return false; };
    auto go = [&](uint64_t a, uint64_t c) -> LD { z[0] = a; z[1] = c; u.t.calls = 0; u.t.log.clear(); ++g_execs; ++g_states; return draw(); };
    bool ok = true;
    // shape of the piece chosen by (x0, x1): index * 3 + {0 flat, 1 larger of two, 2 smaller of two}
    auto key = [&](uint64_t x, uint64_t y, bool deep) -> int { x0 = x; x1 = y; skip = pre; LD v = go(0, 0); if(nbins > 1 && u.t.calls == pre) { skip = pre - 1; v = go(0, 0); } /* integral weights may leave nothing to choose */ size_t i = std::upper_bound(b.begin(), b.end(), v) - b.begin(); if(i == 0 || i > m || v != b[i - 1]) { ok = bad("outside", fmt("smallest engine values give %.20Lg, not the start of a piece", v)); return 0; } --i; size_t calls = u.t.calls; LD w = b[i + 1] - b[i], tol = 8 * eps * std::max(std::fabs(b[i]), std::fabs(b[i + 1]));
        LD hi = go(Z, 0), lo = go(0, Z); int sh = calls <= skip + 1 && hi > b[i] + w / 2 ? 0 : hi > b[i] + w / 2 ? 1 : 2; (void)lo;
        if(deep) for(uint64_t p : {uint64_t(0), Z / 7, Z / 3, Z / 2, Z / 10 * 9, Z}) for(uint64_t q : {uint64_t(0), Z / 5, Z / 2, Z / 10 * 8, Z}) { LD r = go(p, q), up = b[i] + w * std::ldexp((LD)p, -64), uq = b[i] + w * std::ldexp((LD)q, -64), want = sh == 0 ? up : sh == 1 ? std::max(up, uq) : std::min(up, uq);
            if(!(std::fabs(r - want) <= tol + 1e-18L * w)) { ok = bad("place", fmt("piece %zu [%Lg, %Lg], coordinates %.6Lf %.6Lf: value %.20Lg, expected %.20Lg", i, b[i], b[i + 1], std::ldexp((LD)p, -64), std::ldexp((LD)q, -64), r, want)); } if(!(r >= b[i] && r < b[i + 1])) ok = bad("bounds", fmt("value %.20Lg outside piece [%.20Lg, %.20Lg)", r, b[i], b[i + 1])); }
        return int(i) * 3 + sh; };
    std::map<int, LD> p; const uint64_t top = ~0ULL - ((1ULL << std::max(0, 64 - std::numeric_limits<Real>::digits)) - 1), G = 64, step = top / G + 1;
    for(int c = 0; c < nbins && ok; ++c) { uint64_t x = (uint64_t)((u128(1) << 64) / nbins * c + 4321); uint64_t y = 0; int cur = key(x, 0, true); LD start = 0; auto close = [&](LD at) { p[cur] += (at - start) / std::ldexp(1.0L, 64) / nbins; start = at; };
        if(nbins > 1) { auto span = [&](auto&& self, uint64_t lo, uint64_t hi, int rl, int rh) -> void { if(rl == rh || !ok) return; if(hi - lo == 1) { close(hi); cur = rh; key(x, hi, true); return; } uint64_t mid = lo + (hi - lo) / 2; int rm = key(x, mid, false); self(self, lo, mid, rl, rm); self(self, mid, hi, rm, rh); };
            for(uint64_t g = 0; g < G && ok; ++g) { uint64_t hi = g + 1 == G ? top : (g + 1) * step; int rh = key(x, hi, false); span(span, y, hi, cur, rh); y = hi; } }
        close(std::ldexp(1.0L, 64)); }
    for(auto& k : p) { size_t i = k.first / 3; LD w = b[i + 1] - b[i]; L.mass[i] += k.second; switch(k.first % 3) { case 0: L.left[i] += k.second / w; L.right[i] += k.second / w; break; case 1: L.right[i] += 2 * k.second / w; break; default: L.left[i] += 2 * k.second / w; } }
    ++g_traces; return ok;
}
template<class Real> static std::vector<V> boundaries() { std::vector<V> r; V a{-3, -0.5, 0, 1, 1.25, 4, 100}; for(unsigned mask = 0; mask < 128; ++mask) { int pc = __builtin_popcount(mask); if(pc < 2 || pc > (thorough() ? 6 : 4)) continue; if(!thorough() && pc == 4 && mask % 3) continue; V b; for(int i = 0; i < 7; ++i) if(mask >> i & 1) b.push_back(a[i]); r.push_back(b); } r.push_back({1000, 1000.5, 1001}); r.push_back({-1e6, 1e6}); r.push_back({0, 1.0L / 1048576, 1}); return r; }
template<class F> static void weightlists(size_t n, F f) { static const LD al[] = {0, 1, 3, 0.5}; std::vector<size_t> ix(n); for(;;) { V w(n); LD s = 0; for(size_t i = 0; i < n; ++i) s += w[i] = al[ix[i]]; if(s > 0) f(w); size_t k = 0; while(k < n && ++ix[k] == (n > 3 ? 3u : 4u)) ix[k++] = 0; if(k == n || st().nfail) return; } }
template<class A> static bool eqv(const std::vector<A>& a, const V& b, LD tol) { if(a.size() != b.size()) return false; for(size_t i = 0; i < b.size(); ++i) if(!(std::fabs(a[i] - b[i]) <= tol * std::max(LD(1e-9), std::fabs(b[i])))) return false; return true; }
template<class R> static V tov(const std::vector<R>& a) { return V(a.begin(), a.end()); }
template<class D, class Real, class W, bool Lin> static void run(const char* nm) {
    typedef typename D::param_type P; LD eps = std::max((LD)std::numeric_limits<Real>::epsilon(), std::is_integral<W>::value ? LD(0) : (LD)std::numeric_limits<W>::epsilon()); typedef std::vector<Real> VR; typedef std::vector<W> VW;
    for(const V& b : boundaries<Real>()) weightlists(b.size() - (Lin ? 0 : 1), [&](const V& w) {
        if(std::is_integral<W>::value) for(LD x : w) if(x != std::floor(x)) return;
        std::string who = fmt("%s boundaries %s weights %s", nm, show(b).c_str(), show(w).c_str()); VR br_(b.begin(), b.end()); VW bw(w.begin(), w.end()); size_t m = b.size() - 1; LD tot = 0; V mass(m), left(m), right(m);
        for(size_t i = 0; i < m; ++i) { mass[i] = Lin ? (w[i] + w[i + 1]) / 2 * (b[i + 1] - b[i]) : w[i]; tot += mass[i]; } if(tot == 0) return; for(size_t i = 0; i < m; ++i) { mass[i] /= tot; left[i] = Lin ? w[i] / tot : mass[i] / (b[i + 1] - b[i]); right[i] = Lin ? w[i + 1] / tot : left[i]; }
        V dens; if(Lin) for(size_t i = 0; i <= m; ++i) dens.push_back(w[i] / tot); else dens = left;
        D d(br_.begin(), br_.end(), bw.begin()); P pm(br_.begin(), br_.end(), bw.begin()); D d2(br_, bw), d3(pm), d4; P pm2(br_, bw); d4.param(pm); const D other; ++g_states;
        LD p2 = 0; for(LD x : w) p2 += x; int ex; const bool exact = std::is_integral<W>::value || Lin || std::frexp(p2, &ex) == 0.5L; /* weights normalised once or twice differ in the last bit unless their sum is a power of two */
        if(exact && (!(d == d2) || !(d == d3) || !(d == d4) || d != d2)) fail("forms", who + ": distributions from iterators, ranges, parameters and param() differ"); if(!(pm == pm2)) fail("param forms", who + ": parameters from iterators and ranges differ");
        auto fw = [&](Real x) { for(size_t i = 0; i < w.size(); ++i) if(Lin ? (LD)x == b[i] : (LD)x == (b[i] + b[i + 1]) / 2) return bw[i]; return W(99); };
        if(m == 2) { D k{ {br_[0], br_[1], br_[2]}, fw }; P q{ {br_[0], br_[1], br_[2]}, fw }; if((exact && !(k == d)) || !(q == pm) || !eqv(k.intervals(), b, 0) || !eqv(k.densities(), dens, 40 * eps)) fail("initializer form", who); }
        D dd(br_, bw); { VW more(bw); more.push_back(W(5)); D k(br_.begin(), br_.end(), more.begin()); P q(br_.begin(), br_.end(), more.begin()); if(!(k == d) || !(q == pm)) fail("extra weights", who + ": extra weights are not ignored by the iterator form"); }
        if((d.min)() != br_.front() || (d.max)() != br_.back()) fail("minmax", who + fmt(": min() %Lg max() %Lg", (LD)(d.min)(), (LD)(d.max)()));
        if(!eqv(d.intervals(), b, 0) || !eqv(pm.intervals(), b, 0) || !eqv(d.param().intervals(), b, 0)) fail("intervals", who + ": intervals()");
        if(!eqv(d.densities(), dens, 40 * eps)) fail("densities", who + ": densities() " + show(tov(d.densities())) + " expected " + show(dens)); if(!eqv(pm.densities(), dens, 40 * eps) || !eqv(d.param().densities(), dens, 40 * eps)) fail("param densities", who + ": param densities() " + show(tov(pm.densities())) + " " + show(tov(d.param().densities())) + " expected " + show(dens));
        if(std::is_integral<W>::value && !Lin) {   // integral weights are drawn with rejections: exact counts over every engine sequence
            for(int mode = 0; mode < 3 && !st().nfail; ++mode) { const uint64_t K = 6; const size_t depth = thorough() ? 7 : m < 3 ? 5 : 4; DynEng<uint64_t> e = dyn<uint64_t>(0, K - 1); UseTape u; Chooser ch; ch.maxdepth = depth; u.t.ch = &ch; P back = d.param(); std::map<size_t, std::vector<uint64_t>> n; ++g_traces;
                do { ch.begin(); u.t.log.clear(); ++g_execs; try { LD v = mode == 0 ? d(e) : mode == 1 ? other(e, pm) : other(e, back); size_t i = std::upper_bound(b.begin(), b.end(), v) - b.begin(); if(i == 0 || i > m) { fail("outside", who + fmt(": drew %Lg", v)); return; } --i; LD want = b[i] + (b[i + 1] - b[i]) * u.t.log.back() / K; if(std::fabs(v - want) > 4 * eps * std::max(std::fabs(b[i]), std::fabs(b[i + 1])) + 4e-16L * std::fabs(v)) { fail("place", who + fmt(": last engine value %d of %d placed at %.20Lg, expected %.20Lg", (int)u.t.log.back(), (int)K, v, want)); return; } auto& c = n[u.t.log.size()]; c.resize(m); ++c[i]; } catch(Limit&) {} } while(ch.advance());
                if(n.empty()) fail("law", who + ": no draw ended"); for(auto& k : n) { uint64_t sum = 0; for(uint64_t c : k.second) sum += c; for(size_t i = 0; i < m; ++i) if(k.second[i] * (u128)(uint64_t)tot != (u128)sum * (uint64_t)w[i]) { fail("law", who + fmt(": of %llu draws of %zu engine values %llu fall in piece %zu", (ull)sum, k.first, (ull)k.second[i], i)); return; } } }
            return; }
        DynEng<uint64_t> e = dyn<uint64_t>(0, ~0ULL); Law L; int bins = (int)m * (Lin ? 2 : 1);
        for(int mode = 0; mode < 3; ++mode) { P back = d.param(); if(!law<Real>([&]() -> LD { return mode == 0 ? d(e) : mode == 1 ? other(e, pm) : other(e, back); }, b, bins, who + (mode ? mode == 1 ? " per call" : " per call with param()" : ""), L, eps)) return;
            for(size_t i = 0; i < m; ++i) if(std::fabs(L.mass[i] - mass[i]) > 40 * eps || std::fabs(L.left[i] - left[i]) > 60 * eps * (1 / (b[i + 1] - b[i]) + left[i]) || std::fabs(L.right[i] - right[i]) > 60 * eps * (1 / (b[i + 1] - b[i]) + right[i])) { fail("law", who + fmt("%s: piece %zu has probability %.12Lg and densities %.12Lg, %.12Lg at its ends; expected %.12Lg, %.12Lg, %.12Lg", mode ? " per call" : "", i, L.mass[i], L.left[i], L.right[i], mass[i], left[i], right[i])); return; }
            if(!thorough() && b.size() > 3) break; }
    });
    // fewer than two boundaries: the default, by every form and whatever the weights
    for(size_t nb = 0; nb < 2; ++nb) for(size_t nw = 0; nw < 4; ++nw) { VR b; if(nb) b.push_back(7); VW w; for(size_t i = 0; i < nw; ++i) w.push_back(W(i + 1)); VW it(w); it.resize(6, W(2)); std::string who = fmt("%s: %zu boundaries, %zu weights", nm, nb, nw); D def; P pd; std::vector<std::pair<const char*, D>> ds; std::vector<std::pair<const char*, P>> ps;
        ds.push_back({"iterator", D(b.begin(), b.end(), it.begin())}); ps.push_back({"iterator", P(b.begin(), b.end(), it.begin())}); ds.push_back({"range", D(b, w)}); ps.push_back({"range", P(b, w)}); if(nb) { ds.push_back({"initializer", D({Real(7)}, [](Real) { return W(3); })}); ps.push_back({"initializer", P({Real(7)}, [](Real) { return W(3); })}); }
        size_t nd = ds.size(); for(size_t i = 0; i < ps.size(); ++i) ds.push_back({ps[i].first, D(ps[i].second)}); (void)nd;
        for(auto& x : ps) if(!(x.second == pd) || !eqv(x.second.intervals(), {0, 1}, 0) || x.second.densities().size() != (Lin ? 2u : 1u)) fail("default param", who + ", " + x.first + " form: parameters are not the default ones");
        for(auto& x : ds) { ++g_states; if(!(x.second == def) || !eqv(x.second.intervals(), {0, 1}, 0) || (x.second.min)() != 0 || (x.second.max)() != 1) fail("default", who + ", " + x.first + " form: not the default distribution"); if(!eqv(x.second.densities(), Lin ? V{1, 1} : V{1}, 1e-6)) fail("default densities", who + ", " + x.first + " form: densities " + show(tov(x.second.densities())));
            UseTape u; Chooser ch; std::vector<uint64_t> al{0, 1ULL << 30, 1ULL << 62, 1ULL << 63, (1ULL << 63) + (1ULL << 62), ~0ULL << 41}; u.t.alpha = &al; u.t.ch = &ch; ch.maxdepth = 6; DynEng<uint64_t> e = dyn<uint64_t>(0, ~0ULL); do { ch.begin(); ++g_execs; try { Real v = x.second(e); if(!(v >= 0 && v < 1)) { fail("default draw", who + ", " + x.first + fmt(" form: drew %Lg", (LD)v)); break; } } catch(Limit&) {} } while(ch.advance()); } }
    // function form over equal bins
    for(size_t n = 0; n <= 6; ++n) { Real lo = -2, hi = lo + Real(0.25) * (n ? n : 1); auto f = [&](Real x) { return W(x * x + 1); }; std::vector<double> seen; D d(n, lo, hi, [&](Real x) { seen.push_back(x); return f(x); }); P p(n, lo, hi, f); V b, w; for(size_t i = 0; i <= (n ? n : 1); ++i) b.push_back(lo + 0.25L * i); for(size_t i = 0; i < b.size() - (Lin ? 0 : 1); ++i) w.push_back(f(Real(b[i] + (Lin ? 0 : 0.125L)))); VR rb(b.begin(), b.end()); VW rw(w.begin(), w.end()); D ref(rb, rw); P pref(rb, rw); ++g_states; if(!(d == ref) || !(p == pref)) fail("function form", fmt("%s: function form with %zu bins differs from the list it stands for", nm, n)); }
    sample("all boundary subsets and weight lists over small alphabets");
}
MC_MAIN({
#if PART == 0
    add("constant<double>", [] { run<br::piecewise_constant_distribution<double>, double, double, false>("piecewise_constant<double>"); }); add("constant<float,float>", [] { run<br::piecewise_constant_distribution<float, float>, float, float, false>("piecewise_constant<float,float>"); });
#elif PART == 1
    add("constant<long double,long double>", [] { run<br::piecewise_constant_distribution<long double, long double>, long double, long double, false>("piecewise_constant<long double>"); }); add("constant<double,int>", [] { run<br::piecewise_constant_distribution<double, int>, double, int, false>("piecewise_constant<double,int>"); });
    add("constant<float>", [] { run<br::piecewise_constant_distribution<float>, float, double, false>("piecewise_constant<float>"); });
#elif PART == 2
    add("linear<double>", [] { run<br::piecewise_linear_distribution<double>, double, double, true>("piecewise_linear<double>"); });
#else
    add("linear<float>", [] { run<br::piecewise_linear_distribution<float>, float, float, true>("piecewise_linear<float>"); }); add("linear<long double>", [] { run<br::piecewise_linear_distribution<long double>, long double, long double, true>("piecewise_linear<long double>"); });
#endif
})
