// E06: modular arithmetic of the congruential engines against exact 128-bit arithmetic.
// Compiled once per integer type (T06).
#include "mc.hpp"
#include <boost/random/linear_congruential.hpp>
#include <boost/random/inversive_congruential.hpp>
#include <utility>
#include <limits>
using namespace mc;
typedef unsigned __int128 u128; typedef __int128 i128; typedef T06 T; typedef unsigned long long ull;
namespace br = boost::random;
constexpr u128 MAXV = (u128)std::numeric_limits<T>::max();
static u128 full(T m) { return m == 0 ? u128(1) << std::numeric_limits<T>::digits : (u128)m; }
static std::vector<u128> alphabet(u128 m, u128 a) {
    std::set<u128> s; auto put = [&](i128 x) { if(x >= 0 && (u128)x < m) s.insert((u128)x); };
    int lim = 60; for(int i = 0; i < lim; ++i) { put(i); put((i128)m - 1 - i); }
    for(int k = 1; k < 24; ++k) for(int d = -2; d <= 2; ++d) put((i128)(m / 24 * k) + d);
    for(int b = 1; b < 64; ++b) for(int d = -1; d <= 1; ++d) put(((i128)1 << b) + d);
    if(a) { u128 q = m / a; for(int k = 1; k < 20; ++k) for(int d = -1; d <= 1; ++d) put((i128)(q * k) + d); for(int k = 1; k < 9; ++k) put((i128)(q * (a / 9 * k))); if(q) put((i128)(m / q)); }
    return std::vector<u128>(s.begin(), s.end());
}
static bool all_x(u128 m) { return m <= (thorough() ? 70000u : 4096u); }
typedef void (*Step2)(T x, T* out);   // out[0], out[1]: the two values after x
template<T a, T c, T m> static void lcg_step(T x, T* o) { br::linear_congruential_engine<T, a, c, m> e(x); o[0] = e(); o[1] = e(); }
template<T a, T b, T p> static void inv_step(T x, T* o) { br::inversive_congruential_engine<T, a, b, p> e(x); o[0] = e(); }
static void check_lcg(T a, T c, T m, Step2 step) {
    if(st().nfail) return;
    u128 M = full(m); ctx("lcg a=%lld c=%lld m=%lld", (long long)a, (long long)c, (long long)m); ++g_states;
    auto chk = [&](u128 x) {
        T o[2]; step((T)x, o); u128 x0 = (x == 0 && c == 0) ? 1 : x; u128 want = ((u128)a * x0 + (u128)c) % M; ++g_execs; g_trans += 2;
        if((u128)o[0] != want) { fail("lcg", fmt("linear_congruential_engine<%s, %llu, %llu, %llu>: from %llu gives %lld, exact arithmetic %llu", T06NAME, (ull)a, (ull)c, (ull)m, (ull)x0, (long long)o[0], (ull)want)); return false; }
        u128 w2 = ((u128)a * want + (u128)c) % M;
        if((u128)o[1] != w2) { fail("lcg", fmt("linear_congruential_engine<%s, %llu, %llu, %llu>: second value from %llu gives %lld, exact %llu", T06NAME, (ull)a, (ull)c, (ull)m, (ull)x0, (long long)o[1], (ull)w2)); return false; }
        return true; };
    if(all_x(M)) { for(u128 x = 0; x < M; ++x) if(!chk(x)) return; }
    else for(u128 x : alphabet(M, a)) if(!chk(x)) return;
}
static void check_inv(T a, T b, T p, Step2 step) {
    if(st().nfail) return;
    u128 M = p; ctx("inv a=%lld b=%lld p=%lld", (long long)a, (long long)b, (long long)p); ++g_states;
    auto powm = [&](u128 q, u128 e) { u128 r = 1; q %= M; while(e) { if(e & 1) r = r * q % M; q = q * q % M; e >>= 1; } return r; };
    auto chk = [&](u128 x) {
        T got[2]; step((T)x, got); u128 x0 = (x == 0 && b == 0) ? 1 : x; u128 inv = x0 == 0 ? 0 : powm(x0, M - 2); u128 want = ((u128)a * inv + (u128)b) % M; ++g_execs; ++g_trans;
        if((u128)got[0] != want) { fail("inv", fmt("inversive_congruential_engine<%s, %llu, %llu, %llu>: from %llu gives %lld, exact arithmetic %llu", T06NAME, (ull)a, (ull)b, (ull)p, (ull)x0, (long long)got[0], (ull)want)); return false; }
        return true; };
    if(all_x(M)) { for(u128 x = 0; x < M; ++x) if(!chk(x)) return; }
    else for(u128 x : alphabet(M, a)) if(!chk(x)) return;
}
// modulus 2^digits (p == 0): even multiplier, odd increment and odd seed stay among the invertible (odd) values
template<T a, T b> static void inv0() { if(st().nfail) return; const u128 M = full(0); ctx("inv a=%lld b=%lld p=0", (long long)a, (long long)b); ++g_states; auto one = [&](u128 x) { if(!(x & 1)) return true; br::inversive_congruential_engine<T, a, b, 0> e((T)x); u128 v = x; for(int k = 0; k < 3; ++k) { u128 inv = v; for(int i = 0; i < 7; ++i) inv = inv * ((M * 4 + 2 - (v * inv) % M) % M) % M; u128 want = ((u128)a * inv + (u128)b) % M; T got = e(); ++g_execs; ++g_trans; if((u128)got != want) { fail("inv0", fmt("inversive_congruential_engine<%s, %llu, %llu, 0>: value %d from %llu is %lld, exact arithmetic modulo 2^%d gives %llu", T06NAME, (ull)a, (ull)b, k + 1, (ull)x, (long long)got, std::numeric_limits<T>::digits, (ull)want)); return false; } v = want; } return true; };
    if(all_x(M) || std::numeric_limits<T>::digits <= 16) { for(u128 x = 1; x < M; x += 2) if(!one(x)) return; } else for(u128 x : alphabet(M, a)) if(!one(x)) return; }
template<T a, T c, T m> static void one_lcg() { check_lcg(a, c, m, lcg_step<a, c, m>); }
template<T a, T b, T p> static void one_inv() { check_inv(a, b, p, inv_step<a, b, p>); }
// ---- all small moduli: every a, c in {0, 1, m-1}, every x
template<T m, T a> static void small_a() { one_lcg<a, 0, m>(); one_lcg<a, 1 % m, m>(); one_lcg<a, m - 1, m>(); if(m > 3) one_lcg<a, m / 2, m>(); }
template<T m, int... I> static void small_as(std::integer_sequence<int, I...>) { int d[] = {(small_a<m, T(I + 1)>(), 0)...}; (void)d; }
template<int M> static void small_m() { small_as<T(M)>(std::make_integer_sequence<int, M - 1>()); }
template<int P, int A, int... B> static void inv_b(std::integer_sequence<int, B...>) { int d[] = {(one_inv<T(A), T(B), T(P)>(), 0)...}; (void)d; }
template<int P, int... A> static void inv_a(std::integer_sequence<int, A...>) { int d[] = {(inv_b<P, A + 1>(std::make_integer_sequence<int, P>()), 0)...}; (void)d; }
template<int P> static void inv_p() { inv_a<P>(std::make_integer_sequence<int, P - 1>()); }
// ---- boundary moduli: every algorithm selection edge
constexpr u128 isq(u128 x) { u128 r = 0, b = u128(1) << 62; for(; b; b >>= 1) { u128 t = r | b; if(t * t <= x) r = t; } return r; }
constexpr T clampm(u128 v) { return (T)v; }
template<T m, u128 a, int sel> struct Edge {
    static constexpr u128 M = m == 0 ? u128(1) << std::numeric_limits<T>::digits : (u128)m;
    static constexpr bool ok = a >= 1 && a < M;
    static void run() { if constexpr(ok) { one_lcg<(T)a, 0, m>(); one_lcg<(T)a, 1, m>(); one_lcg<(T)a, (T)(M / 2), m>(); one_lcg<(T)a, (T)(M - 1), m>(); } }
};
template<T m> static void edges() {
    constexpr u128 M = m == 0 ? u128(1) << std::numeric_limits<T>::digits : (u128)m; constexpr u128 s = isq(M);
    Edge<m, 1, 0>::run(); Edge<m, 2, 0>::run(); Edge<m, 3, 0>::run(); Edge<m, s - 1, 0>::run(); Edge<m, s, 0>::run(); Edge<m, s + 1, 0>::run();
    Edge<m, s + s / 3, 0>::run(); Edge<m, M / 3, 0>::run(); Edge<m, M / 2, 0>::run(); Edge<m, M / 2 + 1, 0>::run(); Edge<m, M - 2, 0>::run(); Edge<m, M - 1, 0>::run(); Edge<m, M / 7 * 5 + 2, 0>::run();
}
template<T p> static void invedges() {
    constexpr u128 P = p; constexpr u128 s = isq(P);
    one_inv<1, 0, p>(); one_inv<1, 1, p>(); one_inv<2, (T)(P - 1), p>(); one_inv<(T)s, 5, p>(); one_inv<(T)(s + 1), (T)(P / 2), p>(); one_inv<(T)(P - 1), (T)(P - 1), p>(); one_inv<(T)(P / 2), 3, p>(); one_inv<(T)(P - 2), 0, p>();
}
template<class U> static void ring() { if constexpr(!std::is_signed<U>::value) { inv0<2, 1>(); inv0<2, 3>(); inv0<6, (T)MAXV>(); inv0<(T)(MAXV - 1), 5>(); inv0<(T)(MAXV / 2 - 1), 7>(); inv0<0, 9>(); sample("odd states of the ring modulo 2^digits"); } ++g_states; }
#define N(x) T06NAME "/" x
MC_MAIN({
    add(N("small moduli 2..9"), []{ small_m<2>(); small_m<3>(); small_m<4>(); small_m<5>(); small_m<6>(); small_m<7>(); small_m<8>(); small_m<9>(); sample("every a, x; c in {0,1,m/2,m-1}"); });
    add(N("small moduli 10..17"), []{ small_m<10>(); small_m<11>(); small_m<12>(); small_m<13>(); small_m<16>(); small_m<17>(); });
    add(N("inversive 2..13"), []{ inv_p<3>(); inv_p<5>(); inv_p<7>(); inv_p<11>(); inv_p<13>(); sample("every a, b, x for p in 3,5,7,11,13"); });
    add(N("inversive modulo 2^digits"), []{ ring<T>(); });
    add(N("edges max"), []{ edges<clampm(MAXV)>(); edges<clampm(MAXV - 1)>(); });
    add(N("edges half"), []{ edges<clampm(MAXV / 2)>(); edges<clampm(MAXV / 2 + 1)>(); edges<clampm(MAXV / 2 + 2)>(); });
    add(N("edges third"), []{ edges<clampm(MAXV / 3)>(); edges<clampm(MAXV / 4 + 1)>(); });
    add(N("edges sqrt"), []{ edges<clampm(isq(MAXV) - 1)>(); edges<clampm(isq(MAXV))>(); edges<clampm(isq(MAXV) + 1)>(); edges<clampm(isq(MAXV) * 2)>(); edges<clampm(isq(MAXV / 2))>(); edges<clampm(isq(MAXV / 2) + 1)>(); });
#if T06DIG == 15
    add(N("primes"), []{ edges<32749>(); edges<181>(); edges<16381>(); invedges<32749>(); invedges<181>(); invedges<16381>(); invedges<8191>(); });
#elif T06DIG == 16
    add(N("primes"), []{ edges<65521>(); edges<32771>(); edges<257>(); edges<251>(); edges<0>(); invedges<65521>(); invedges<32771>(); invedges<257>(); invedges<8191>(); });
#elif T06DIG == 31
    add(N("primes"), []{ edges<2147483647>(); edges<2147483629>(); edges<1073741827>(); edges<65537>(); invedges<2147483647>(); invedges<2147483629>(); invedges<1073741827>(); invedges<46337>(); invedges<65537>(); });
#elif T06DIG == 32
    add(N("primes"), []{ edges<4294967291u>(); edges<2147483659u>(); edges<0>(); edges<65537>(); invedges<4294967291u>(); invedges<2147483659u>(); invedges<2147483647>(); invedges<65537>(); });
#elif T06DIG == 63
    add(N("primes"), []{ edges<9223372036854775783LL>(); edges<4294967291LL>(); edges<3037000493LL>(); edges<(1LL << 48)>(); invedges<9223372036854775783LL>(); invedges<2305843009213693951LL>(); invedges<4294967291LL>(); invedges<3037000493LL>(); });
#else
    add(N("primes"), []{ edges<18446744073709551557ULL>(); edges<9223372036854775837ULL>(); edges<4294967291ULL>(); edges<4294967311ULL>(); edges<0>(); edges<(1ULL << 48)>(); edges<(1ULL << 63)>(); invedges<18446744073709551557ULL>(); invedges<9223372036854775837ULL>(); invedges<2305843009213693951ULL>(); invedges<4294967311ULL>(); });
#endif
})
