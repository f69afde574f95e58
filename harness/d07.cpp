// D07: the law of normal_distribution and exponential_distribution, layer by layer.
#include "dyneng.hpp"
#include <boost/random/normal_distribution.hpp>
#include <boost/random/exponential_distribution.hpp>
#include <boost/random/uniform_01.hpp>
#include <boost/random/uniform_int_distribution.hpp>
#include <boost/multiprecision/cpp_bin_float.hpp>
using namespace mc; namespace br = boost::random; typedef long double LD; typedef std::vector<uint64_t> Vals; typedef boost::multiprecision::cpp_bin_float_quad Quad;   // a user-defined real type of 113 bits
template<class R> LD epsof() { return std::max<LD>((LD)std::numeric_limits<R>::epsilon(), std::numeric_limits<LD>::epsilon()); }
static uint64_t word(uint64_t r56, unsigned b) { return r56 << 8 | b; }   // the fraction on top of the layer number
static const uint64_t R1 = 1ULL << 56;
// One draw from a list of 64-bit engine values; "used" counts the engine values taken (past the end: a middle value).
// For long double (Quad) a fraction takes a second engine value, which holds its 8 (57) highest bits.
template<class D> struct Draw { Tape t; D d; DynEng<uint64_t> e = dyn<uint64_t>(0, ~0ULL); static const size_t W = std::numeric_limits<typename D::result_type>::digits > 56 ? 2 : 1; uint64_t s[24]; size_t n = 0, used = 0;
    explicit Draw(const D& dd = D()) : d(dd) { t.fn = [this](uint64_t) -> uint64_t { size_t k = t.calls - 1; if(k > 4000) throw std::runtime_error("a draw does not end on ordinary values"); return k < n ? s[k] : 1ULL << 63; }; }
    Draw& clear() { n = 0; return *this; } Draw& fr(uint64_t r56, unsigned b) { if(W == 1) s[n++] = word(r56, b); else if(std::numeric_limits<typename D::result_type>::digits == 64) { s[n++] = word((r56 << 8) & (R1 - 1), b); s[n++] = r56 >> 48; } else { s[n++] = b; s[n++] = r56 << 1; } return *this; } Draw& y(uint64_t v) { s[n++] = v; return *this; } Draw& all(const Vals& v) { for(size_t i = 0; i < v.size(); ++i) if(i == 0 || i == 2) fr(v[i] >> 8, v[i] & 255); else y(v[i]); return *this; }
    LD run() { return run([&]() -> LD { return (LD)d(e); }); } template<class F> LD run(F f) { Tape* old = g_tape[0]; g_tape[0] = &t; t.calls = 0; t.log.clear(); ++g_execs; ++g_states; LD v; try { v = f(); } catch(...) { g_tape[0] = old; throw; } g_tape[0] = old; used = t.calls; return v; }
    LD go(uint64_t r, unsigned b) { return clear().fr(r, b).run(); } LD go(uint64_t r, unsigned b, uint64_t h) { return clear().fr(r, b).y(h).run(); } };
// measured layer: sign, width, end of the part taken at once
struct Layer { int sign; LD X; uint64_t cut; bool tail; };
template<class D> struct Meas { std::string nm; LD eps; Draw<D> dr; Layer L[256]; std::vector<unsigned> tails; bool ok = true; size_t nd;
    explicit Meas(const char* n, LD e, size_t digits) : nm(n), eps(e), nd(digits) {}
    void bad(const char* k, const std::string& d) { ok = false; fail(k, nm + ": " + d); }
    LD val(unsigned b, uint64_t r) { return dr.go(r, b); } static const size_t W = Draw<D>::W;
    void layers() { for(unsigned b = 0; b < 256 && ok; ++b) { Layer& l = L[b]; auto fast = [&](uint64_t r) { dr.go(r, b); return dr.used == W; }; uint64_t lo = 0, hi = R1 - (R1 >> (nd < 54 ? nd : 54)); if(fast(hi)) { bad("layer", fmt("layer %u: the whole width is accepted at once", b)); return; } if(!fast(0)) hi = 1, l.cut = 0; while(hi - lo > 1) { uint64_t m = (lo + hi) / 2; (fast(m) ? lo : hi) = m; } if(fast(0)) l.cut = hi;
            uint64_t at = lo & ~((R1 >> 20) - 1); if(!at) { // a layer without a part accepted at once: measured through the accepted wedge with the smallest height
                at = R1 / 2; LD v = dr.go(at, b, 0); if(dr.used != W + 1) { bad("layer", fmt("layer %u: the middle at height 0 is not accepted", b)); return; } l.X = std::fabs(v) * 2; l.sign = v < 0 ? -1 : 1; }
            else { LD v = val(b, at); l.X = std::fabs(v) * R1 / at; l.sign = v < 0 ? -1 : 1; }
            for(unsigned g = 0; g < 200; ++g) { uint64_t r = R1 / 200 * g + (g * 977 & 255) * 65536; bool f = fast(r); if(f != (r < l.cut)) { bad("layer", fmt("layer %u: accepted at fraction %.9Lf although the limit is %.9Lf", b, (LD)r / R1, (LD)l.cut / R1)); return; } if(f) { LD v = val(b, r), want = l.sign * l.X * r / R1; if(std::fabs(v - want) > 4 * eps * l.X) { bad("layer", fmt("layer %u: fraction %.12Lf gives %.20Lg, expected %.20Lg", b, (LD)r / R1, v, want)); return; } } }
            // what follows when the value is not accepted at once
            l.tail = false; } LD widest = 0; for(auto& l : L) widest = std::max(widest, l.X); for(unsigned b = 0; b < 256; ++b) if(L[b].X > widest * (1 - 1e-6L)) { L[b].tail = true; tails.push_back(b); } }
    // height below which fraction r of layer b is accepted, as a share of all heights
    LD height(unsigned b, uint64_t r) { auto acc = [&](uint64_t y) { LD v = dr.go(r, b, y); if(dr.used == W + 1) { LD want = L[b].sign * L[b].X * r / R1; if(std::fabs(v - want) > 4 * eps * L[b].X) bad("wedge", fmt("layer %u: fraction %.12Lf gives %.20Lg in the wedge, expected %.20Lg", b, (LD)r / R1, v, want)); return true; } return false; };
        uint64_t top = ~0ULL << 12; if(nd < 52) top = ~0ULL << (64 - nd); if(!acc(0)) return 0; if(acc(top)) return 1; uint64_t lo = 0, hi = top; while(hi - lo > 1024) { uint64_t m = lo + (hi - lo) / 2; (acc(m) ? lo : hi) = m; } if(hi > 64 && r % 5 == 0) for(int g = 1; g < 16; ++g) { uint64_t y = ~0ULL / 16 * g; if(acc(y) != (y < hi)) bad("wedge", fmt("layer %u fraction %.9Lf: heights accepted are not an initial part", b, (LD)r / R1)); } return std::ldexp((LD)hi, -64); }
    // density per round at the signed point x (times 256)
    LD density(LD x) { LD s = 0; for(unsigned b = 0; b < 256; ++b) { if((x < 0) != (L[b].sign < 0)) continue; LD q = std::fabs(x) / L[b].X * R1; if(q >= R1 - 256) continue; uint64_t r = (uint64_t)q; LD a = r < L[b].cut ? 1 : L[b].tail ? 0 : height(b, r); s += a / L[b].X; } return s; }
};
static bool g_slow = false;
template<class F> static void points(const std::vector<LD>& edges, F f) { unsigned G = g_slow ? thorough() ? 100 : 2 : thorough() ? 20000 : 300; for(size_t i = 0; i + 1 < edges.size(); ++i) for(unsigned g = 0; g < G; ++g) f(edges[i] + (edges[i + 1] - edges[i]) * (g + 0.5L) / G); }
template<class M> static std::vector<LD> edges_of(M& m) { std::vector<LD> e{0}; for(auto& l : m.L) { e.push_back(l.X); e.push_back(l.X * l.cut / R1); } std::sort(e.begin(), e.end()); std::vector<LD> r; for(LD x : e) if(r.empty() || x > r.back() * (1 + 1e-6L) + 1e-9L) r.push_back(x); return r; }
static std::vector<Vals> tails_of_script() { std::vector<Vals> r; for(unsigned b : {0u, 1u, 2u, 3u, 17u, 100u, 128u, 254u, 255u}) for(uint64_t q : {uint64_t(0), R1 / 7, R1 / 3, R1 / 2, R1 - R1 / 16}) { for(uint64_t y : {uint64_t(1) << 40, uint64_t(3) << 60, ~uint64_t(0) << 12}) r.push_back({word(q, b), y, word(R1 / 5, 77), 1ULL << 50}); } return r; }
template<class Real> static void expo(const char* nm) {
    typedef br::exponential_distribution<Real> D; Meas<D> m(nm, epsof<Real>(), std::numeric_limits<Real>::digits); m.layers(); if(!m.ok) return; for(auto& l : m.L) if(l.sign < 0) { m.bad("sign", "a negative value"); return; }
    if(m.tails.size() != 1) { m.bad("tail", fmt("%zu widest layers", m.tails.size())); return; } Layer& t = m.L[m.tails[0]]; LD x1 = t.X * t.cut / R1; LD C = 0; LD tol = 4000 * std::max(m.eps, 2e-16L); ++g_traces;
    // tail: the end of the widest layer plus a fresh variate
    LD T = (1 - (LD)t.cut / R1); LD lim = 0; for(auto& l : m.L) if(!l.tail) lim = std::max(lim, l.X); x1 = std::max(x1, lim); C = T / std::exp(-x1);
    points(edges_of(m), [&](LD x) { if(!m.ok) return; LD d = m.density(x), want = x < x1 ? C * std::exp(-x) : 0; if(std::fabs(x - x1) < x1 * 1e-5L) return; if(!(std::fabs(d - want) <= tol * C * std::exp(-std::min(x, x1)) + (want ? 0 : 1e-18L))) m.bad("density", fmt("density at %.12Lg is %.12Lg, expected %.12Lg (in units fixed by the tail's share)", x, d / C, want / C)); });
    for(auto& s : tails_of_script()) for(int k = 0; k < 4; ++k) { if(!m.ok) return; auto& dr = m.dr; LD base = dr.clear().all(s).run(); size_t u0 = dr.used; dr.clear(); for(int i = 0; i < k; ++i) dr.fr(R1 - (R1 >> 6) * (i + 1) / 8, m.tails[0]); LD v = dr.all(s).run(); if(dr.used != u0 + k * m.W || std::fabs(v - (base + k * x1)) > 8 * std::max(m.eps, 2e-16L) * (base + k * x1)) { m.bad("tail", fmt("%d tail values then a draw of %.15Lg give %.18Lg, expected %.18Lg", k, base, v, base + k * x1)); } }
    // a rejected value is forgotten
    for(unsigned b = 0; b < 256 && m.ok; ++b) if(!m.L[b].tail) for(auto& s : tails_of_script()) { auto& dr = m.dr; LD base = dr.clear().all(s).run(); size_t u0 = dr.used; LD v = dr.clear().fr(m.L[b].cut + (R1 - m.L[b].cut) / 16 * 15, b).y(~0ULL << 41).all(s).run(); if(dr.used != u0 + m.W + 1 || v != base) { m.bad("rejected", fmt("layer %u: after a rejected value a draw of %.18Lg (%zu engine values) became %.18Lg (%zu)", b, base, u0, v, dr.used)); break; } }
    for(Real lam : {Real(1), Real(0.5), Real(3), Real(1e-3), Real(250), Real(1.37)}) { Draw<D> q{D(lam)}; for(auto& s : tails_of_script()) { LD a = m.dr.clear().all(s).run(), b = q.clear().all(s).run(); const D other(Real(9)); LD c = q.run([&]() -> LD { return (LD)other(q.e, typename D::param_type(lam)); }); if(std::fabs(b - a / (LD)lam) > 4 * m.eps * b || c != b) { m.bad("lambda", fmt("lambda %Lg: %.18Lg and per call %.18Lg where the unit law gives %.18Lg", (LD)lam, b, c, a)); return; } } }
    sample("every layer: widths, limits, wedge heights, density, tail");
}
template<class Real> static void normal(const char* nm) {
    typedef br::normal_distribution<Real> D; Meas<D> m(nm, epsof<Real>(), std::numeric_limits<Real>::digits); m.layers(); if(!m.ok) return; if(m.tails.size() != 2 || m.L[m.tails[0]].sign == m.L[m.tails[1]].sign) { m.bad("tail", fmt("%zu widest layers", m.tails.size())); return; } ++g_traces;
    LD x1 = 0; for(auto& l : m.L) if(!l.tail) x1 = std::max(x1, l.X); LD Tn[2]; for(int k = 0; k < 2; ++k) { Layer& l = m.L[m.tails[k]]; Tn[l.sign > 0] = 1 - (LD)l.cut / R1; }
    LD Q = std::sqrt(std::acos(-1.0L) / 2) * std::erfc(x1 / std::sqrt(2.0L)); LD C = Tn[1] / Q, tol = 4000 * std::max(m.eps, 2e-16L); if(std::fabs(Tn[0] - Tn[1]) > 1e-12L) m.bad("tail", "the two tails differ in probability");
    points(edges_of(m), [&](LD ax) { for(LD x : {ax, -ax}) { if(!m.ok || std::fabs(ax - x1) < x1 * 1e-5L) return; LD d = m.density(x), want = ax < x1 ? C * std::exp(-ax * ax / 2) : 0; if(!(std::fabs(d - want) <= tol * C * std::exp(-std::min(ax, x1) * std::min(ax, x1) / 2) + 1e-18L)) m.bad("density", fmt("density at %.12Lg is %.12Lg, expected %.12Lg (in units fixed by the tail's share)", x, d / C, want / C)); } });
    // tail: the point x1 + x with x exponential of rate x1, kept when an independent exponential y has 2 y > x^2
    { typedef br::exponential_distribution<Real> E; Draw<E> ex{E((Real)x1)}, ey; auto& dr = m.dr; unsigned G = thorough() ? 96 : 24; uint64_t kept = 0, all = 0; struct Pt { uint64_t r; unsigned b; LD x, y; }; std::vector<Pt> ps; for(unsigned i = 0; i < G * 16; ++i) { Pt p; p.r = R1 / 16 * (i % 16) + R1 / 32; p.b = i / 16 * 255 / (G - 1); p.x = ex.go(p.r, p.b); if(ex.used != ex.W) continue; p.y = ey.go(p.r, p.b); ps.push_back(p); }
        for(unsigned tb : m.tails) for(size_t i = 0; i < ps.size() && m.ok; ++i) for(size_t j = 0; j < ps.size() && m.ok; ++j) { if(!thorough() && (i * 7 + j * 3) % 5) continue; LD x = ps[i].x, y = ps[j].y, margin = 2 * y - x * x; if(std::fabs(margin) < 16 * m.eps * (x * x + y)) continue; LD v = dr.clear().fr(R1 - (R1 >> 20), tb).fr(ps[i].r, ps[i].b).fr(ps[j].r, ps[j].b).run(); ++all; kept += margin > 0; bool taken = dr.used == 3 * dr.W; LD want = m.L[tb].sign * (x1 + x);
            if(taken != (margin > 0) || (taken && std::fabs(v - want) > 8 * m.eps * std::fabs(want))) m.bad("tail", fmt("tail with exponentials %.15Lg and %.15Lg: %s, value %.18Lg, expected %s %.18Lg", x, y, taken ? "kept" : "drawn again", v, margin > 0 ? "to keep" : "another draw instead of", want)); }
        if(!kept || kept == all) m.bad("tail", "the tail grid does not cover both outcomes");
        for(unsigned tb : m.tails) for(uint64_t y : {uint64_t(1) << 63, uint64_t(1) << 62}) { LD v = dr.clear().fr(R1 - (R1 >> 20), tb).fr(R1 / 2, 0).fr(1, 0).fr(R1 / 64, 0).fr(y >> 8, 0).run(); LD want = m.L[tb].sign * (x1 + ex.go(R1 / 64, 0)); if(dr.used != 5 * dr.W || std::fabs(v - want) > 8 * m.eps * std::fabs(want)) m.bad("tail", fmt("a tail point drawn again: %.18Lg after %zu engine values, expected %.18Lg", v, dr.used, want)); } }
    for(unsigned b = 0; b < 256 && m.ok; ++b) if(!m.L[b].tail) for(auto& s : tails_of_script()) { auto& dr = m.dr; LD base = dr.clear().all(s).run(); size_t u0 = dr.used; LD v = dr.clear().fr(m.L[b].cut + (R1 - m.L[b].cut) / 16 * 15, b).y(~0ULL << 41).all(s).run(); if(dr.used != u0 + m.W + 1 || v != base) { m.bad("rejected", fmt("layer %u: after a rejected value a draw of %.18Lg (%zu engine values) became %.18Lg (%zu)", b, base, u0, v, dr.used)); break; } }
    for(Real mu : {Real(0), Real(1), Real(-7.5), Real(1e4)}) for(Real sg : {Real(1), Real(0), Real(0.25), Real(3), Real(1e-3)}) { Draw<D> q{D(mu, sg)}; for(auto& s : tails_of_script()) { LD a = m.dr.clear().all(s).run(), b = q.clear().all(s).run(); D other(Real(5), Real(2)); LD c = q.run([&]() -> LD { return (LD)other(q.e, typename D::param_type(mu, sg)); }), want = a * (LD)sg + (LD)mu; if(std::fabs(b - want) > 4 * m.eps * (std::fabs(a * (LD)sg) + std::fabs((LD)mu)) || c != b) { m.bad("parameters", fmt("mean %Lg sigma %Lg: %.18Lg and per call %.18Lg, expected %.18Lg", (LD)mu, (LD)sg, b, c, want)); return; } } }
    sample("every layer: widths, limits, wedge heights, density, tail");
}
// Engines of other word sizes: the layer number takes 8 bits and the fraction all the others, each engine bit used once.
struct Feed { size_t n = 0; std::vector<uint64_t> v; };
template<class T, class Real> static void words(const char* nm, T lo, uint64_t span) {
    DynEng<T> e = dyn<T>(lo, span); const int digits = std::numeric_limits<Real>::digits; int m = 0; while(m < 63 && (span + 1 == 0 || ((span + 1) >> (m + 1)))) ++m; if(span == ~0ULL) m = 64; u128 full = u128(1) << m; std::string who = fmt("%s, engine of %d bits, span %llu", nm, m, (ull)span);
    br::exponential_distribution<Real> ex; br::normal_distribution<Real> no; UseTape u; std::vector<uint64_t> s; u.t.fn = [&](uint64_t) -> uint64_t { size_t k = u.t.calls - 1; if(k > 3000) throw std::runtime_error("does not end"); uint64_t z = (k + 1) * 0x9e3779b97f4a7c15ULL; z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ULL; return k < s.size() ? s[k] : (z ^ z >> 31) & (uint64_t)(full - 1); };
    static Meas<br::exponential_distribution<Real>> rx("exponential", epsof<Real>(), digits); static Meas<br::normal_distribution<Real>> rn("normal", epsof<Real>(), digits); static bool measured = false; if(!measured) { measured = true; rx.layers(); rn.layers(); } if(!rx.ok || !rn.ok) return;
    const size_t nb = 8 / m, rem = 8 % m, first = m - rem; size_t extra = 0; for(size_t have = first; have < (size_t)digits; have += m) ++extra; const size_t need = nb + 1 + extra;
    // the documented mapping: whole values into the layer (most significant first), then the low bits of the next value; its high bits
    // are the least significant whole part of the fraction and later values come above it
    auto model = [&](const std::vector<uint64_t>& w, unsigned& b, LD& r) { b = 0; size_t k = 0; for(size_t i = 0; i < nb; ++i) b = b << m | (unsigned)w[k++]; uint64_t x = w[k++]; b = (unsigned)((b << rem) | (x & ((1u << rem) - 1))); r = std::ldexp((LD)(x >> rem), -(int)first); size_t have = first; while(have < (size_t)digits) { size_t take = std::min<size_t>(m, digits - have); uint64_t y = w[k++]; if(take < 64) y &= (1ULL << take) - 1; r = std::ldexp(r + (LD)y, -(int)take); have += take; } };
    auto one = [&](std::vector<uint64_t> w) { unsigned b; LD r; model(w, b, r); if(r >= 1 - std::ldexp(1.0L, -digits)) return true; s = w; ++g_states; for(int kind = 0; kind < 2; ++kind) { LD q = std::ldexp(r, 56); const Layer& l = kind ? rn.L[b] : rx.L[b]; u.t.calls = 0; u.t.log.clear(); ++g_execs; LD v = kind ? (LD)no(e) : (LD)ex(e); size_t used = u.t.calls; bool in = q < l.cut; if(std::fabs(q - l.cut) <= 1 + std::ldexp(8.0L, 56 - digits)) continue; LD want = l.sign * l.X * r;
            if(in != (used == need)) { fail("words", who + fmt(" %s: layer %u fraction %.12Lf: %zu engine values used, expected %s %zu", kind ? "normal" : "exponential", b, r, used, in ? "exactly" : "more than", need)); return false; }
            if(in && std::fabs(v - want) > l.X * 8 * epsof<Real>()) { fail("words", who + fmt(" %s: layer %u fraction %.15Lf gives %.15Lg, expected %.15Lg", kind ? "normal" : "exponential", b, r, v, want)); return false; } } return true; };
    std::vector<uint64_t> base(need);
    auto all = [&](auto fill) { for(size_t i = 0; i < need; ++i) base[i] = fill(i); one(base); };
    uint64_t M = (uint64_t)(full - 1); for(uint64_t c : {uint64_t(0), M, M / 2, M / 3, M / 7 * 2}) { all([&](size_t) { return c; }); for(size_t i = 0; i < need; ++i) { all([&](size_t k) { return k == i ? M - c : c; }); for(int bit = 0; bit < m; ++bit) { all([&](size_t k) { return k == i ? (c ^ (1ULL << bit)) : c; }); if(st().nfail) return; } } }
    // every layer
    for(unsigned b = 0; b < 256; ++b) for(uint64_t c : {M / 3, M / 5 * 3}) { all([&](size_t k) -> uint64_t { if(k < nb) return (b >> (8 - m * (k + 1))) & M; if(k == nb) return ((c >> rem) << rem) | (b & ((1u << rem) - 1)); return c; }); if(st().nfail) return; }
    // values beyond the largest power of two are skipped
    if(span + 1 != 0 && (u128)span + 1 != full) for(uint64_t extra_v : {(uint64_t)full, span}) for(size_t pos = 0; pos < need; ++pos) for(unsigned c = 0; c < 4; ++c) { std::vector<uint64_t> w(need); for(size_t i = 0; i < need; ++i) w[i] = M / 4 * c + (c & i & M ? 1 : 0); for(int kind = 0; kind < 2; ++kind) { auto go = [&]() -> LD { u.t.calls = 0; u.t.log.clear(); ++g_execs; return kind ? (LD)no(e) : (LD)ex(e); }; s = w; LD a = go(); size_t ua = u.t.calls; if(ua != need) continue; s.insert(s.begin() + pos, extra_v); LD b = go(); if(a != b || u.t.calls != ua + 1) { fail("words", who + fmt(": engine value %llu at place %zu changes the result from %.15Lg to %.15Lg (%zu and %zu engine values)", (ull)extra_v, pos, a, b, ua, (size_t)u.t.calls)); return; } } }
    ++g_traces;
}
template<class Real> static void sizes(const char* nm) {
    for(int m = 1; m <= 64; m += g_slow && !thorough() && m > 16 && m < 56 ? 8 : 1) { uint64_t span = m == 64 ? ~0ULL : (1ULL << m) - 1; if(m <= 8) words<uint8_t, Real>(nm, 0, span); if(m <= 16) { words<uint16_t, Real>(nm, 0, span); words<int16_t, Real>(nm, -7, m == 16 ? span / 2 : span); } if(m <= 32) { words<uint32_t, Real>(nm, 0, span); words<int32_t, Real>(nm, std::numeric_limits<int32_t>::min(), span); } words<uint64_t, Real>(nm, 0, span); words<int64_t, Real>(nm, std::numeric_limits<int64_t>::min(), span); if(m < 63) { words<uint64_t, Real>(nm, 5, span + 1); words<int64_t, Real>(nm, -3, span + span / 2); } if(m <= 30) { words<int32_t, Real>(nm, 1, span + 1 + span / 3); words<int32_t, Real>(nm, 1, span * 2); } if(m <= 15) words<uint16_t, Real>(nm, 1, span + 1); if(st().nfail) return; }
    sample("all engine widths 1..64, every bit of every engine value, every layer");
}
// floating-point engines: layer and fraction are made by the public uniform distributions
template<class Real, class T, int Bits> static void realeng(const char* nm) { SReal<T, Bits> e; UseTape u; std::vector<uint64_t> s; u.t.fn = [&](uint64_t sp) -> uint64_t { size_t k = u.t.calls - 1; return (k < s.size() ? s[k] : 1ULL << 63) >> (Bits >= 64 ? 0 : 64 - Bits) & sp; }; br::exponential_distribution<Real> ex; br::normal_distribution<Real> no; Meas<br::exponential_distribution<Real>> rx("exponential", epsof<Real>(), std::numeric_limits<Real>::digits); Meas<br::normal_distribution<Real>> rn("normal", epsof<Real>(), std::numeric_limits<Real>::digits); rx.layers(); rn.layers(); if(!rx.ok || !rn.ok) return; std::set<int> seen;
    for(unsigned i = 0; i < 2048; ++i) for(unsigned j = 0; j < 64; ++j) { s = {i * (~0ULL / 2048) + (~0ULL >> 20), j * (~0ULL / 64) + (~0ULL >> 19), 0}; u.t.calls = 0; u.t.log.clear(); int b = br::uniform_int_distribution<>(0, 255)(e); Real r = br::uniform_01<Real>()(e); size_t pre = u.t.calls; seen.insert(b); for(int kind = 0; kind < 2; ++kind) { LD q = std::ldexp((LD)r, 56); const Layer& l = kind ? rn.L[b] : rx.L[b]; LD want = l.sign * l.X * r; if(q > l.cut - (1 + std::ldexp(8.0L, 56 - std::numeric_limits<Real>::digits))) continue; u.t.calls = 0; u.t.log.clear(); ++g_execs; ++g_states; LD v = kind ? (LD)no(e) : (LD)ex(e); if(u.t.calls != pre || std::fabs(v - want) > l.X * 8 * epsof<Real>()) { fail("real engine", fmt("%s: layer %d fraction %.12Lf gives %.15Lg after %llu engine values, expected %.15Lg after %zu", nm, b, (LD)r, v, (ull)u.t.calls, want, pre)); return; } } }
    if(seen.size() != 256) fail("real engine", fmt("%s: %zu layers reached", nm, seen.size())); ++g_traces; sample("2048 x 64 grid of engine values"); }
MC_MAIN({
#if PART == 0
    add("exponential<double>", [] { expo<double>("exponential<double>"); }); add("exponential<float>", [] { expo<float>("exponential<float>"); }); add("exponential<long double>", [] { expo<long double>("exponential<long double>"); });
    add("normal<double>", [] { normal<double>("normal<double>"); }); add("normal<float>", [] { normal<float>("normal<float>"); }); add("normal<long double>", [] { normal<long double>("normal<long double>"); });
#elif PART == 1
    add("word sizes<float>", [] { sizes<float>("float"); });
#elif PART == 2
    add("word sizes<double>", [] { sizes<double>("double"); });
#elif PART == 4
    g_slow = true; add("exponential<quad>", [] { expo<Quad>("exponential<quad>"); }); add("normal<quad>", [] { normal<Quad>("normal<quad>"); }); add("word sizes<quad>", [] { sizes<Quad>("quad"); });
#else
    add("word sizes<long double>", [] { sizes<long double>("long double"); });
    add("real engine<double,float>", [] { realeng<double, float, 24>("double from float engine"); }); add("real engine<double,double>", [] { realeng<double, double, 53>("double from double engine"); }); add("real engine<float,float>", [] { realeng<float, float, 24>("float from float engine"); });
#endif
})
