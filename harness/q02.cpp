// Q02: structure of the quasi-random points.  Model: generator matrices built here from the published constructions; bound to the engines by
// comparing every direction number and runs of drawn points.  Net properties: all elementary intervals, by ranks of the matrices and by counting points.
#include "mc.hpp"
#include <boost/random/sobol.hpp>
#include <boost/random/niederreiter_base2.hpp>
#include <boost/random/faure.hpp>
using namespace mc; namespace br = boost::random; typedef unsigned long long ull; typedef long double LD;
// V[dim][r]: direction numbers of an engine, read off single points (point n is the xor over the bits of n ^ n >> 1)
template<class E> static std::vector<std::vector<uint64_t>> directions(size_t D, unsigned w) { E e(D); std::vector<std::vector<uint64_t>> V(D, std::vector<uint64_t>(w)); for(unsigned r = 0; r < w; ++r) { uint64_t n = r == 63 ? ~0ULL : (2ULL << r) - 1; e.seed(typename E::size_type(n - 1)); for(size_t j = 0; j < D; ++j) { V[j][r] = e(); ++g_trans; } ++g_states; } return V; }
static uint64_t point(const std::vector<uint64_t>& v, uint64_t n) { uint64_t x = 0; n ^= n >> 1; for(unsigned r = 0; n; ++r, n >>= 1) if(n & 1) x ^= v[r]; return x; }
// binding: drawn points are the xor of direction numbers
template<class E> static bool linear(const char* nm, size_t D, unsigned w, const std::vector<std::vector<uint64_t>>& V, uint64_t N, const std::vector<uint64_t>& far) { E e(D); auto run = [&](uint64_t n0, uint64_t N) { for(uint64_t n = n0; n < n0 + N; ++n) for(size_t j = 0; j < D; ++j) { ++g_trans; uint64_t x = e(); if(x > (E::max)()) { fail("range", fmt("%s(%zu): value above max()", nm, D)); return false; } if(x != point(V[j], n)) { fail("linear", fmt("%s(%zu): coordinate %zu of point %llu is %llx, the matrices give %llx", nm, D, j, (ull)n, (ull)x, (ull)point(V[j], n))); return false; } } ++g_traces; return true; }; if(!run(1, N)) return false; for(uint64_t f : far) { e.seed(typename E::size_type(f - 1)); if(!run(f, 3)) return false; } return true; }
// row i of the matrix: bit i from the top of each direction number, as a mask over columns
static uint64_t row(const std::vector<uint64_t>& v, unsigned w, unsigned i) { uint64_t m = 0; for(unsigned r = 0; r < w; ++r) m |= (v[r] >> (w - 1 - i) & 1) << r; return m; }
static unsigned rank(std::vector<uint64_t> a) { unsigned k = 0; for(size_t i = 0; i < a.size(); ++i) { if(!a[i]) continue; ++k; uint64_t b = a[i] & -a[i]; for(size_t j = i + 1; j < a.size(); ++j) if(a[j] & b) a[j] ^= a[i]; } return k; }
// every elementary interval of volume 2^-(m-t) holds the same number of the first 2^m points: all compositions of m - t
static bool net(const std::string& who, const std::vector<const std::vector<uint64_t>*>& V, unsigned w, unsigned m, unsigned t) { if(t >= m) return true; uint64_t cols = m == 64 ? ~0ULL : (1ULL << m) - 1; std::vector<std::vector<uint64_t>> R(V.size()); for(size_t j = 0; j < V.size(); ++j) for(unsigned i = 0; i < m - t && i < w; ++i) R[j].push_back(row(*V[j], w, i) & cols); std::vector<unsigned> d(V.size()); bool ok = true; std::function<void(size_t, unsigned)> go = [&](size_t j, unsigned left) { if(!ok) return; if(j + 1 == V.size()) { d[j] = left; std::vector<uint64_t> a; for(size_t k = 0; k < V.size(); ++k) for(unsigned i = 0; i < d[k]; ++i) a.push_back(R[k][i]); ++g_states; if(rank(a) != m - t) { ok = false; std::string s; for(unsigned x : d) s += fmt(" %u", x); fail("net", who + fmt(": the first 2^%u points are not evenly spread over the intervals with side exponents%s", m, s.c_str())); } return; } for(unsigned x = 0; x <= left; ++x) { d[j] = x; go(j + 1, left - x); } }; go(0, m - t); return ok; }
// polynomials over GF(2)
static unsigned deg(uint64_t p) { return 63 - __builtin_clzll(p); }
static uint64_t pmod(uint64_t a, uint64_t p) { unsigned d = deg(p); while(a >> d) a ^= p << (deg(a) - d); return a; }
static uint64_t mulm(uint64_t a, uint64_t b, uint64_t p) { uint64_t r = 0; for(; b; b >>= 1) { if(b & 1) r ^= a; a = pmod(a << 1, p); } return pmod(r, p); }
static uint64_t powx(uint64_t n, uint64_t p) { uint64_t r = pmod(1, p), x = pmod(2, p); for(; n; n >>= 1) { if(n & 1) r = mulm(r, x, p); x = mulm(x, x, p); } return r; }
static std::vector<uint64_t> irreducibles() { std::vector<uint64_t> v; for(uint64_t p = 2; p < 65536; ++p) { bool ok = true; for(uint64_t q : v) { if(2 * deg(q) > deg(p)) break; if(pmod(p, q) == 0) { ok = false; break; } } if(ok) v.push_back(p); } return v; }
static std::vector<uint64_t> primitives() { std::vector<uint64_t> v; for(uint64_t p : irreducibles()) { if(p == 2) continue; uint64_t n = (1ULL << deg(p)) - 1; bool ok = true; uint64_t x = n; for(uint64_t f = 2; f <= x && ok; ++f) if(x % f == 0) { while(x % f == 0) x /= f; if(n / f < n && deg(p) > 1 && powx(n / f, p) == 1) ok = false; } if(ok) v.push_back(p); } return v; }
#if PART == 0
template<class E> static void sob(const char* nm, size_t D, unsigned w, uint64_t N) { auto V = directions<E>(D, w); std::vector<uint64_t> far; for(unsigned b = 5; b + 1 < w; b += 3) { far.push_back((1ULL << b) - 1); far.push_back((1ULL << b) + (1ULL << b / 2) + 5); } if(!linear<E>(nm, D, w, V, std::min<uint64_t>(N, (w == 64 ? ~0ULL : (1ULL << w) - 1)), far)) return; auto P = primitives(); if(P.size() != 3666) { fail("model", "wrong number of primitive polynomials"); return; }
    uint64_t h = 1469598103934665603ULL;
    for(size_t j = 0; j < D; ++j) { auto m = [&](unsigned k) { return V[j][k] >> (w - 1 - k); }; for(unsigned k = 0; k < w; ++k) { uint64_t x = V[j][k]; if((x & ((k == w - 1 ? 1ULL : 1ULL << (w - 1 - k)) - 1)) || !(m(k) & 1) || (k < 63 && m(k) >> (k + 1))) { fail("direction", fmt("%s(%zu): direction number %u of coordinate %zu is not an odd multiple of 2^-%u below 1: the first 2^%u points leave an interval empty", nm, D, k, j, k + 1, k + 1)); return; } ++g_states; }
        if(j == 0) { for(unsigned k = 0; k < w; ++k) if(m(k) != 1) { fail("direction", fmt("%s(%zu): the first coordinate is not the van der Corput sequence", nm, D)); return; } continue; }
        uint64_t p = P[j - 1]; unsigned s = deg(p); for(unsigned k = s; k < w; ++k) { uint64_t x = m(k - s); for(unsigned i = 1; i <= s; ++i) if(p >> (s - i) & 1) x ^= m(k - i) << i; if(x != m(k)) { fail("recurrence", fmt("%s(%zu): direction number %u of coordinate %zu does not follow the recurrence of the primitive polynomial %llu", nm, D, k, j, (ull)p)); return; } }
        for(unsigned k = 0; k < s && k < w; ++k) h = (h ^ m(k)) * 1099511628211ULL; }
    // initial numbers of the first dimensions (Joe and Kuo 2008)
    static const int JK[][8] = {{1}, {1, 3}, {1, 3, 1}, {1, 1, 1}, {1, 1, 3, 3}, {1, 3, 5, 13}, {1, 1, 5, 5, 17}, {1, 1, 5, 5, 5}, {1, 1, 7, 11, 19}, {1, 1, 5, 1, 1}, {1, 1, 1, 3, 11}, {1, 3, 5, 5, 31}, {1, 3, 3, 9, 7, 49}, {1, 1, 1, 15, 21, 21}, {1, 3, 1, 13, 27, 49}, {1, 1, 1, 15, 7, 5}, {1, 3, 1, 15, 13, 25}, {1, 1, 5, 5, 19, 61}, {1, 3, 7, 11, 23, 15, 103}, {1, 3, 7, 13, 13, 15, 69}};
    for(size_t j = 1; j < D && j <= 20; ++j) for(unsigned k = 0; k < 8 && k < w; ++k) if(JK[j - 1][k] && V[j][k] >> (w - 1 - k) != (uint64_t)JK[j - 1][k]) { fail("published", fmt("%s(%zu): coordinate %zu starts from %llu at place %u, published is %d", nm, D, j, (ull)(V[j][k] >> (w - 1 - k)), k, JK[j - 1][k])); return; }
    if(D == 3667 && w >= 16) { if(getenv("Q02_SHOW")) fprintf(stderr, "digest %llx\n", (ull)h); if(h != 0x33bda83ef5ead8a4ULL) { fail("published", fmt("%s: the initial direction numbers of the 3667 dimensions are not those of Joe and Kuo", nm)); return; }
        // Property A for the first 1111 dimensions: the matrix of leading bits has no singular leading minor
        const size_t N = 1111; std::vector<std::vector<uint64_t>> M(N, std::vector<uint64_t>((N + 63) / 64)); for(size_t j = 0; j < N; ++j) { std::vector<bool> b(N); for(size_t k = 0; k < N; ++k) { if(j == 0) b[k] = k == 0; else { uint64_t p = P[j - 1]; unsigned s = deg(p); if(k < s) b[k] = V[j][k] >> (w - 1) & 1; else { bool x = false; for(unsigned i = 1; i <= s; ++i) if(p >> (s - i) & 1) x ^= b[k - i]; b[k] = x; } } if(b[k]) M[j][k / 64] |= 1ULL << k % 64; } }
        for(size_t i = 0; i < N; ++i) { ++g_states; if(!(M[i][i / 64] >> i % 64 & 1)) { fail("property-A", fmt("%s: the first %zu dimensions do not satisfy Property A", nm, i + 1)); return; } for(size_t j = i + 1; j < N; ++j) if(M[j][i / 64] >> i % 64 & 1) for(size_t k = i / 64; k < M[j].size(); ++k) M[j][k] ^= M[i][k]; } }
    sample(fmt("%s: %zu dimensions, %u direction numbers each", nm, D, w)); }
#endif
// Niederreiter matrices after Bratley, Fox and Niederreiter
static std::vector<uint64_t> nieder(uint64_t poly, unsigned w) { unsigned e = deg(poly); std::vector<uint64_t> V(w); std::vector<bool> B(1, true); for(unsigned q = 0; q * e < w; ++q) { std::vector<bool> C(B.size() + e); for(size_t i = 0; i < B.size(); ++i) if(B[i]) for(unsigned k = 0; k <= e; ++k) if(poly >> k & 1) C[i + k] = !C[i + k]; B = C; unsigned m = e * (q + 1); std::vector<bool> v(e + w); for(unsigned r = 0; r < v.size(); ++r) { if(r < e * q) v[r] = false; else if(r < m) v[r] = true; else { bool x = false; for(unsigned k = 0; k < m; ++k) x ^= B[k] && v[r - m + k]; v[r] = x; } } for(unsigned u = 0; u < e && q * e + u < w; ++u) for(unsigned r = 0; r < w; ++r) if(v[r + u]) V[r] |= 1ULL << (w - 1 - q * e - u); } return V; }
#if PART == 1
template<class E> static void nie(const char* nm, size_t D, unsigned w, uint64_t N) { auto V = directions<E>(D, w); std::vector<uint64_t> far; for(unsigned b = 5; b + 1 < w; b += 3) { far.push_back((1ULL << b) - 1); far.push_back((1ULL << b) + (1ULL << b / 2) + 5); } if(!linear<E>(nm, D, w, V, N, far)) return; auto P = irreducibles(); if(P.size() != 4720) { fail("model", "wrong number of irreducible polynomials"); return; }
    for(size_t j = 0; j < D; ++j) { auto X = nieder(P[j], w); unsigned e = deg(P[j]); ++g_states; for(unsigned r = 0; r < w; ++r) if(V[j][r] != X[r]) { fail("published", fmt("%s(%zu): direction number %u of coordinate %zu (polynomial %llu) is %llx, the published construction gives %llx", nm, D, r, j, (ull)P[j], (ull)V[j][r], (ull)X[r])); return; }
        for(unsigned m = e; m <= w; ++m) if(!net(fmt("%s(%zu) coordinate %zu", nm, D, j), {&V[j]}, w, m, m % e == 0 ? 0 : e - 1)) return; }
    sample(fmt("%s: %zu dimensions, %u direction numbers each", nm, D, w)); }
#endif
template<class E> static void nets(const char* nm, unsigned w, bool sobol, unsigned M) { size_t D = 24; auto V = directions<E>(D, w); std::vector<unsigned> e; if(sobol) { e.push_back(1); for(uint64_t p : primitives()) e.push_back(deg(p)); } else for(uint64_t p : irreducibles()) e.push_back(deg(p));
    auto chk = [&](std::vector<size_t> js, unsigned mm) { unsigned t = 0; std::vector<const std::vector<uint64_t>*> v; std::string s; for(size_t j : js) { t += e[j] - 1; v.push_back(&V[j]); s += fmt(" %zu", j); } for(unsigned m = 1; m <= mm; ++m) if(!net(fmt("%s coordinates%s (t = %u)", nm, s.c_str(), t), v, w, m, t)) return false; return true; };
    for(size_t s = 1; s <= 6; ++s) { std::vector<size_t> js; for(size_t j = 0; j < s; ++j) js.push_back(j); if(!chk(js, s <= 3 ? M : s <= 4 ? M - 4 : M - 6)) return; } for(size_t a = 0; a < D; ++a) for(size_t b = a + 1; b < D; ++b) if(!chk({a, b}, M)) return; for(size_t a = 0; a < 9; ++a) for(size_t b = a + 1; b < 9; ++b) for(size_t c = b + 1; c < 9; ++c) if(!chk({a, b, c}, std::min(M, 18u))) return; sample(fmt("%s: projections of the first %zu dimensions", nm, D)); }
// counting: blocks of 2^m consecutive points (the skipped point 0 added), every elementary interval
template<class E> static void counts(const char* nm, size_t D, unsigned w, unsigned m, unsigned t, unsigned blocks) { E e(D); std::vector<std::vector<uint64_t>> pts(1, std::vector<uint64_t>(D)); while(pts.size() < (uint64_t)blocks << m) { std::vector<uint64_t> p(D); for(auto& x : p) x = e(); pts.push_back(p); } std::vector<unsigned> d(D); std::function<bool(size_t, unsigned)> go = [&](size_t j, unsigned left) -> bool { if(j + 1 == D) { d[j] = left; for(unsigned b = 0; b < blocks; ++b) { std::vector<unsigned> c(1ULL << (m - t)); for(uint64_t i = (uint64_t)b << m; i < (uint64_t)(b + 1) << m; ++i) { uint64_t k = 0; for(size_t q = 0; q < D; ++q) k = d[q] ? k << d[q] | pts[i][q] >> (w - d[q]) : k; ++c[k]; } ++g_traces; ++g_execs; for(unsigned x : c) if(x != 1u << t) { fail("net-count", fmt("%s(%zu): block %u of 2^%u points does not put %u points in each interval", nm, D, b, m, 1u << t)); return false; } } return true; } for(unsigned x = 0; x <= left; ++x) { d[j] = x; if(!go(j + 1, left - x)) return false; } return true; }; go(0, m - t); }
#if PART == 2
static unsigned prime_at_least(size_t n) { for(unsigned p = n < 2 ? 2 : n;; ++p) { bool ok = true; for(unsigned q = 2; q * q <= p; ++q) if(p % q == 0) ok = false; if(ok) return p; } }
// digits of the coordinates of point n in base b
static std::vector<std::vector<unsigned>> faure_digits(uint64_t n, size_t D, unsigned b) { std::vector<unsigned> a; while(n) { a.push_back(n % b); n /= b; } size_t L = a.size(); std::vector<std::vector<unsigned>> binom(L, std::vector<unsigned>(L)); for(size_t k = 0; k < L; ++k) for(size_t i = 0; i <= k; ++i) binom[k][i] = i == 0 || i == k ? 1 : (binom[k - 1][i - 1] + binom[k - 1][i]) % b; std::vector<std::vector<unsigned>> y; for(size_t j = 0; j < D; ++j) { y.push_back(a); std::vector<unsigned> c(L); for(size_t i = 0; i < L; ++i) { uint64_t s = 0; for(size_t k = i; k < L; ++k) s += (uint64_t)binom[k][i] * a[k]; c[i] = s % b; } a = c; } return y; }
template<class E> static void fau(const char* nm, size_t D, uint64_t N, const std::vector<uint64_t>& far) { typedef typename E::result_type R; unsigned b = prime_at_least(D); E e(D); auto run = [&](uint64_t n0, uint64_t N) { for(uint64_t n = n0; n < n0 + N; ++n) { auto y = faure_digits(n, D, b); for(size_t j = 0; j < D; ++j) { R x = e(); ++g_trans; LD want = 0; for(size_t i = y[j].size(); i-- > 0;) want = (want + y[j][i]) / b; if(!(x >= 0 && x < 1)) { fail("range", fmt("%s(%zu): coordinate %zu of point %llu is %.17Lg, outside [0, 1)", nm, D, j, (ull)n, (LD)x)); return false; } if(!(std::fabs((LD)x - want) <= 4 * std::numeric_limits<R>::epsilon() * std::max(want, (LD)1e-3L))) { fail("published", fmt("%s(%zu): coordinate %zu of point %llu is %.17Lg, Faure's construction gives %.17Lg", nm, D, j, (ull)n, (LD)x, want)); return false; } } ++g_states; } ++g_traces; return true; }; if(!run(0, N)) return; for(uint64_t f : far) { e.seed((typename E::size_type)f); if(!run(f, 2)) return; } sample(fmt("%s(%zu) base %u", nm, D, b)); }
template<class E> static void fcount(const char* nm, size_t D, unsigned m, unsigned blocks) { unsigned b = prime_at_least(D); uint64_t N = 1; for(unsigned i = 0; i < m; ++i) N *= b; E e(D); std::vector<std::vector<LD>> pts; for(uint64_t i = 0; i < N * blocks; ++i) { std::vector<LD> p; for(size_t j = 0; j < D; ++j) p.push_back(e()); pts.push_back(p); } std::vector<unsigned> d(D); std::function<bool(size_t, unsigned)> go = [&](size_t j, unsigned left) -> bool { if(j + 1 == D) { d[j] = left; ++g_execs; for(unsigned k = 0; k < blocks; ++k) { std::vector<unsigned> c(N); for(uint64_t i = k * N; i < (k + 1) * N; ++i) { uint64_t x = 0; for(size_t q = 0; q < D; ++q) { uint64_t s = 1; for(unsigned z = 0; z < d[q]; ++z) s *= b; uint64_t f = (uint64_t)(pts[i][q] * s + 1e-5L); x = x * s + std::min(f, s - 1); } ++c[x]; } ++g_traces; for(unsigned x : c) if(x != 1) { fail("net-count", fmt("%s(%zu): block %u of %llu points does not put one point in each interval", nm, D, k, (ull)N)); return false; } } return true; } for(unsigned x = 0; x <= left; ++x) { d[j] = x; if(!go(j + 1, left - x)) return false; } return true; }; go(0, m); }
#endif
static void body() { bool t = thorough(); (void)t;
#if PART == 0
    add("sobol 3667", [=] { sob<br::sobol>("sobol", 3667, 64, t ? 2000 : 130); }); typedef br::sobol_engine<uint32_t, 32> S32; typedef br::sobol_engine<uint32_t, 17> S17; typedef br::sobol_engine<uint16_t, 16> S16; typedef br::sobol_engine<uint64_t, 8> S8; typedef br::sobol_engine<unsigned, 5> S5; for(size_t D : {1, 2, 7, 40, 500}) { add(fmt("sobol<u32,32> %zu", D), [=] { sob<S32>("sobol<u32,32>", D, 32, 3000); }); add(fmt("sobol<u32,17> %zu", D), [=] { sob<S17>("sobol<u32,17>", D, 17, 3000); }); add(fmt("sobol<u64,8> %zu", D), [=] { sob<S8>("sobol<u64,8>", D, 8, 255); }); add(fmt("sobol<u32,5> %zu", D), [=] { sob<S5>("sobol<u32,5>", D, 5, 31); }); add(fmt("sobol %zu", D), [=] { sob<br::sobol>("sobol", D, 64, 3000); }); } add("sobol<u16,16> 3667", [=] { sob<S16>("sobol<u16,16>", 3667, 16, 200); });
    add("sobol projections", [=] { nets<br::sobol>("sobol", 64, true, t ? 22 : 16); }); for(int D : {1, 2, 3, 4}) add(fmt("sobol count %d", D), [=] { counts<br::sobol>("sobol", D, 64, D == 1 ? 12 : 9, D < 4 ? (D == 3 ? 1 : 0) : 3, 5); });
#elif PART == 1
    add("niederreiter 4720", [=] { nie<br::niederreiter_base2>("niederreiter_base2", 4720, 64, t ? 1500 : 40); }); typedef br::niederreiter_base2_engine<uint32_t, 32> N32; typedef br::niederreiter_base2_engine<uint32_t, 17> N17; typedef br::niederreiter_base2_engine<uint64_t, 8> N8; typedef br::niederreiter_base2_engine<unsigned, 5> N5; for(size_t D : {1, 2, 7, 40, 500}) { add(fmt("niederreiter<u32,32> %zu", D), [=] { nie<N32>("niederreiter<u32,32>", D, 32, 3000); }); add(fmt("niederreiter<u32,17> %zu", D), [=] { nie<N17>("niederreiter<u32,17>", D, 17, 3000); }); add(fmt("niederreiter<u64,8> %zu", D), [=] { nie<N8>("niederreiter<u64,8>", D, 8, 200); }); add(fmt("niederreiter<u32,5> %zu", D), [=] { nie<N5>("niederreiter<u32,5>", D, 5, 28); }); add(fmt("niederreiter_base2 %zu", D), [=] { nie<br::niederreiter_base2>("niederreiter_base2", D, 64, 3000); }); }
    add("niederreiter projections", [=] { nets<br::niederreiter_base2>("niederreiter_base2", 64, false, t ? 22 : 16); }); for(int D : {1, 2, 3, 4}) add(fmt("niederreiter count %d", D), [=] { counts<br::niederreiter_base2>("niederreiter_base2", D, 64, D == 1 ? 12 : 9, D < 3 ? 0 : D == 3 ? 1 : 3, 5); });
#else
    typedef br::faure_engine<float, uint64_t> FF; typedef br::faure_engine<long double, uint32_t> FL; std::vector<uint64_t> far; for(int b = 10; b < 64; b += 1) { far.push_back((1ULL << b) - 1); far.push_back((1ULL << b) + (1ULL << b / 2) - 3); } for(uint64_t q : {3, 5, 7, 11, 13, 41, 101}) { uint64_t x = q; while(x < ~0ULL / q) { x *= q; if(x > 3000) { far.push_back(x - 1); } } } std::vector<uint64_t> near; for(uint64_t f : far) if(f < (1ULL << 31)) near.push_back(f);
    for(size_t D : {1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 20, 40, 100}) { add(fmt("faure %zu", D), [=] { fau<br::faure>("faure", D, t ? 20000 : 3000, far); }); add(fmt("faure<float> %zu", D), [=] { fau<FF>("faure<float>", D, 3000, far); }); add(fmt("faure<long double,u32> %zu", D), [=] { fau<FL>("faure<long double,u32>", D, 3000, near); }); } add("faure dimensions", [=] { for(size_t D = 1; D <= 1117; D += t ? 1 : D < 60 ? 1 : 23) fau<br::faure>("faure", D, 3, {D - 1, D, D * D, (uint64_t)D * D * D - 1}); fau<br::faure>("faure", 1117, 2, {1117, 1116, 1117 * 1117 - 1, 5000000}); });
    for(size_t D : {1, 2, 3, 4, 5, 7}) add(fmt("faure count %zu", D), [=] { fcount<br::faure>("faure", D, D <= 2 ? 9 : D == 3 ? 6 : D <= 5 ? 4 : 3, 3); });
#endif
}
MC_MAIN({ body(); })
