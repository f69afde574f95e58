// Reference models of the engines: direct transcriptions of the published recurrences and of the
// documented seeding procedures, with unbounded (128-bit) integer arithmetic and no blocking.
#pragma once
#include "anyengine.hpp"
#include <deque>
typedef unsigned __int128 u128; typedef __int128 i128;

inline u128 mask_of(unsigned w) { return w >= 128 ? ~u128(0) : ((u128(1) << w) - 1); }
inline int ilog2(u128 x) { int r = -1; while(x) { ++r; x >>= 1; } return r; }
template<class T> struct RefCRTP : Ref { RP clone() const override { return RP(new T(static_cast<const T&>(*this))); } };
inline void need(bool ok) { if(!ok) throw std::invalid_argument("ref: not enough words"); }
template<class T> inline u128 modulus_of(T m) { return m == 0 ? (u128(1) << std::numeric_limits<T>::digits) : (u128)m; }

// words needed for one value modulo m: ceil(log2 m / 32)
inline unsigned words_for(u128 m) { unsigned k = 0; u128 c = 1; while(c < m) { c <<= 32; ++k; } return k; }

// little-endian words, each taken as a value of the engine's type, modulo m
template<class T> inline u128 words_mod(const uint32_t* w, unsigned k, u128 m) {
    i128 s = 0; for(unsigned j = 0; j < k; ++j) { i128 d = (i128)(T)w[j] % (i128)m; if(d < 0) d += m; s = (s + d * (i128)((u128(1) << (32 * j)) % m)) % (i128)m; } return (u128)s;
}
// x -> (a x + c) mod m
template<class T, T A, T C, T M> struct RefLcg : RefCRTP<RefLcg<T,A,C,M>> {
    u128 m = modulus_of<T>(M), x = 1;
    RefLcg() { seed_default(); }
    static u128 mm() { return modulus_of<T>(M); }
    void fix() { if(C == 0 && x == 0) x = 1; }
    void seed_default() override { seed_val(1); }
    void seed_val(int64_t v) override {   // the value in the engine's own type, reduced mathematically
        T t = (T)v; i128 y = (i128)t;
        y %= (i128)m; if(y < 0) y += m; x = (u128)y; fix();
    }
    void from(const uint32_t* w, unsigned k) {
        x = words_mod<T>(w, k, m); fix();
    }
    void seed_seq(const std::function<Words(size_t)>& g) override { unsigned k = words_for(m); Words w = g(k + 3); from(&w[3], k); }
    void seed_iter(const Words& w, size_t& p) override { unsigned k = words_for(m); for(unsigned j = 0; j < k; ++j) { if(p + j >= w.size()) { p = w.size(); need(false); } } from(&w[p], k); p += k; }
    W next() override { x = ((u128)A * x + C) % m; return (W)x; }
    W min() const override { return C == 0 ? 1 : 0; } W max() const override { return W(m - 1); }
    std::string key() const override { return std::to_string((W)x); } size_t mem() const override { return 1; }
};
struct RefRand48 : RefCRTP<RefRand48> {
    typedef RefLcg<uint64_t, 0x5DEECE66DULL, 0xB, (1ULL << 48)> L; L l;
    RefRand48() { seed_default(); }
    void seed_default() override { seed_val(1); }
    void seed_val(int64_t v) override { l.x = ((u128)(uint32_t)v << 16) | 0x330e; }
    void seed_seq(const std::function<Words(size_t)>& g) override { l.seed_seq(g); }
    void seed_iter(const Words& w, size_t& p) override { l.seed_iter(w, p); }
    W next() override { return l.next() >> 17; }
    W min() const override { return 0; } W max() const override { return 0x7fffffff; }
    std::string key() const override { return l.key(); } size_t mem() const override { return 3; }
};
// inversive congruential: x -> (a * x^-1 + b) mod p, 0^-1 = 0
template<class T, T A, T B, T P> struct RefInv : RefCRTP<RefInv<T,A,B,P>> {
    u128 x = 1;
    RefInv() { seed_default(); }
    void fix() { if(B == 0 && x == 0) x = 1; }
    void seed_default() override { seed_val(1); }
    void seed_val(int64_t v) override { i128 y = (i128)(T)v % (i128)P; if(y < 0) y += P; x = (u128)y; fix(); }
    void from(const uint32_t* w, unsigned k) { x = words_mod<T>(w, k, P); fix(); }
    void seed_seq(const std::function<Words(size_t)>& g) override { unsigned k = words_for(P); Words w = g(k + 3); from(&w[3], k); }
    void seed_iter(const Words& w, size_t& p) override { unsigned k = words_for(P); if(p + k > w.size()) { p = w.size(); need(false); } from(&w[p], k); p += k; }
    static u128 powm(u128 b, u128 e) { u128 r = 1; b %= (u128)P; while(e) { if(e & 1) r = r * b % (u128)P; b = b * b % (u128)P; e >>= 1; } return r; }
    W next() override { u128 inv = x == 0 ? 0 : powm(x, (u128)P - 2); x = ((u128)A * inv + B) % (u128)P; return (W)x; } // Fermat
    W min() const override { return B == 0 ? 1 : 0; } W max() const override { return W(P - 1); }
    std::string key() const override { return std::to_string((W)x); } size_t mem() const override { return 1; }
};
// Tausworthe generator: bit sequence b_i = b_{i-k} ^ b_{i-(k-q)}, words of w bits taken every s bits.
template<class T, int Wd, int K, int Q, int S> struct RefLfsr : RefCRTP<RefLfsr<T,Wd,K,Q,S>> {
    u128 v = 0;
    RefLfsr() { seed_default(); }
    void seed_default() override { seed_val(341); }
    void set(u128 x) { v = x & mask_of(Wd); if((v >> (Wd - K)) == 0) v += u128(1) << (Wd - K); }
    void seed_val(int64_t x) override { set((u128)(T)x); }
    void seed_seq(const std::function<Words(size_t)>& g) override { unsigned k = (Wd + 31) / 32; Words w = g(k + 3); u128 s = 0; for(unsigned j = 0; j < k; ++j) s += (u128)w[j+3] << (32*j); set(s & mask_of(Wd)); }
    void seed_iter(const Words& w, size_t& p) override { unsigned k = (Wd + 31) / 32; if(p + k > w.size()) { p = w.size(); need(false); } u128 s = 0; for(unsigned j = 0; j < k; ++j) s += (u128)w[p+j] << (32*j); p += k; set(s & mask_of(Wd)); }
    W next() override {
        std::vector<int> b(Wd + S, 0);
        for(int i = 0; i < K; ++i) b[i] = int((v >> (Wd - 1 - i)) & 1);
        for(int i = K; i < Wd + S; ++i) b[i] = b[i - K] ^ b[i - (K - Q)];
        u128 r = 0; for(int i = 0; i < Wd; ++i) r = (r << 1) | b[S + i];
        v = r; return (W)v;
    }
    W min() const override { return 0; } W max() const override { return (W)mask_of(Wd); }
    std::string key() const override { return std::to_string((W)(v >> (Wd - K))); } size_t mem() const override { return 1; }
};
struct RefSplitmix : RefCRTP<RefSplitmix> {
    uint64_t s;
    RefSplitmix() { seed_default(); }
    void seed_default() override { seed_val(0); }
    void seed_val(int64_t v) override { s = v ? (uint64_t)v : 0xA164B43C8F634A13ULL; }
    void seed_seq(const std::function<Words(size_t)>& g) override { Words w = g(2); s = ((uint64_t)w[0] << 32) | w[1]; }
    void seed_iter(const Words&, size_t&) override { throw std::logic_error("none"); }
    W next() override { s += 0x9E3779B97F4A7C15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    W min() const override { return 0; } W max() const override { return ~W(0); }
    std::string key() const override { return std::to_string(s); } size_t mem() const override { return 1; }
};
inline Words minstd_words(uint32_t a, uint32_t m, uint32_t seed, size_t n) {
    u128 x = seed % m; if(x == 0) x = 1; Words w; for(size_t i = 0; i < n; ++i) { x = x * a % m; w.push_back((uint32_t)x); } return w;
}
inline void array_from(const uint32_t* w, unsigned bits, size_t n, std::deque<W>& x) {
    unsigned k = (bits + 31) / 32; x.clear();
    for(size_t j = 0; j < n; ++j) { u128 v = 0; for(unsigned i = 0; i < k; ++i) v += (u128)w[j*k+i] << (32*i); x.push_back(W(v & mask_of(bits))); }
}
// real engines: the top of w bits is taken word by word, the last word masked to w mod 32 bits
// x_n = x_{n-p} + x_{n-q} mod 2^w  (used for integer and real engines; real outputs are scaled)
template<int Wd, unsigned P, unsigned Q, class SeedT> struct RefLf : RefCRTP<RefLf<Wd,P,Q,SeedT>> {
    std::deque<W> x;
    RefLf() { seed_default(); }
    void seed_default() override { seed_val(331); }
    void seed_val(int64_t v) override { seed_seq([&](size_t n){ return minstd_words(16807, 2147483647u, (uint32_t)(SeedT)v, n); }); }
    void seed_seq(const std::function<Words(size_t)>& g) override { size_t k = (Wd + 31) / 32; Words w = g(k * P); array_from(w.data(), Wd, P, x); }
    void seed_iter(const Words& w, size_t& p) override { size_t k = (Wd + 31) / 32 * P; if(p + k > w.size()) { p = w.size(); need(false); } array_from(&w[p], Wd, P, x); p += k; }
    W next() override { W v = (x[0] + x[P - Q]) & (W)mask_of(Wd); x.pop_front(); x.push_back(v); return v; }
    W min() const override { return 0; } W max() const override { return (W)mask_of(Wd); }
    std::string key() const override { std::string s; for(W v : x) s += std::to_string(v) + ","; return s; } size_t mem() const override { return P; }
};
template<int Wd, unsigned P, unsigned Q, class SeedT> struct RefLf01 : RefLf<Wd,P,Q,SeedT> {
    RP clone() const override { return RP(new RefLf01(*this)); }
    W max() const override { return W(u128(1) << Wd); }
};
// x_n = (x_{n-s} - x_{n-r} - carry) mod 2^w
template<int Wd, unsigned S, unsigned R, class SeedT> struct RefSwc : RefCRTP<RefSwc<Wd,S,R,SeedT>> {
    std::deque<W> x; int carry = 0;
    RefSwc() { seed_default(); }
    void seed_default() override { seed_val(0); }
    void init() { carry = x[R - 1] == 0; }
    void seed_val(int64_t v) override { SeedT t = (SeedT)v; uint32_t s = t == 0 ? 19780503u : (uint32_t)t; seed_seq([&](size_t n){ return minstd_words(40014, 2147483563u, s, n); }); }
    void seed_seq(const std::function<Words(size_t)>& g) override { size_t k = (Wd + 31) / 32; Words w = g(k * R); array_from(w.data(), Wd, R, x); init(); }
    void seed_iter(const Words& w, size_t& p) override { size_t k = (Wd + 31) / 32 * R; if(p + k > w.size()) { p = w.size(); need(false); } array_from(&w[p], Wd, R, x); p += k; init(); }
    W next() override { i128 y = (i128)x[R - S] - (i128)x[0] - carry; if(y < 0) { y += (i128)1 << Wd; carry = 1; } else carry = 0; x.pop_front(); x.push_back((W)y); return (W)y; }
    W min() const override { return 0; } W max() const override { return (W)mask_of(Wd); }
    std::string key() const override { std::string s; for(W v : x) s += std::to_string(v) + ","; return s + std::to_string(carry); } size_t mem() const override { return R + 1; }
};
template<int Wd, unsigned S, unsigned R, class SeedT> struct RefSwc01 : RefSwc<Wd,S,R,SeedT> {
    RP clone() const override { return RP(new RefSwc01(*this)); }
    W max() const override { return W(u128(1) << Wd); }
};
// Mersenne twister, one word at a time
template<class T, unsigned Wd, unsigned N, unsigned M, unsigned R, T A, unsigned U, T D, unsigned S, T B, unsigned Tt, T C, unsigned L, T F>
struct RefMt : RefCRTP<RefMt<T,Wd,N,M,R,A,U,D,S,B,Tt,C,L,F>> {
    std::deque<W> x;
    RefMt() { seed_default(); }
    static W mk() { return (W)mask_of(Wd); }
    void seed_default() override { seed_val(5489); }
    void zero_fix() { // the low R bits of x[0] are not part of the state
        bool z = (x[0] >> R) == 0; for(unsigned i = 1; i < N; ++i) z = z && x[i] == 0;
        if(z) x[0] = W(1) << (Wd - 1);
    }
    void seed_val(int64_t v) override {
        x.clear(); x.push_back((W)(T)v & mk());
        for(unsigned i = 1; i < N; ++i) x.push_back((W)(((u128)F * (x[i-1] ^ (x[i-1] >> (Wd - 2))) + i) & mk()));
        zero_fix();
    }
    void seed_seq(const std::function<Words(size_t)>& g) override { size_t k = (Wd + 31) / 32; Words w = g(k * N); array_from(w.data(), Wd, N, x); zero_fix(); }
    void seed_iter(const Words& w, size_t& p) override { size_t k = (Wd + 31) / 32 * N; if(p + k > w.size()) { p = w.size(); need(false); } array_from(&w[p], Wd, N, x); p += k; zero_fix(); }
    W next() override {
        W lo = (W)mask_of(R), up = mk() & ~lo;
        W y = (x[0] & up) | (x[1 % N] & lo);
        W v = x[M] ^ (y >> 1) ^ ((y & 1) ? (W)A : 0);
        x.pop_front(); x.push_back(v & mk());
        W z = x.back();
        z ^= (z >> U) & (W)D; z ^= (z << S) & (W)B; z ^= (z << Tt) & (W)C; z ^= z >> L;
        return z & mk();
    }
    W min() const override { return 0; } W max() const override { return mk(); }
    std::string key() const override { std::string s = std::to_string(x[0] >> R) + ","; for(unsigned i = 1; i < N; ++i) s += std::to_string(x[i]) + ","; return s; } size_t mem() const override { return N; }
};
// MIXMAX: v' = A v mod 2^61-1 with A the MIXMAX matrix of size N, special entry s = 0, m = 2^SM + 1;
// coordinates 1..N-1 are output.  Seeding (skipping to a stream) is modelled by the harness of E08.
template<int N, unsigned SM> struct RefMixmax : RefCRTP<RefMixmax<N,SM>> {
    static W P() { return (W(1) << 61) - 1; }
    std::vector<W> v; int counter = 1;   // v: current vector; counter: next coordinate
    static std::function<std::vector<W>(uint32_t,uint32_t,uint32_t,uint32_t)>& seeder() { static std::function<std::vector<W>(uint32_t,uint32_t,uint32_t,uint32_t)> f; return f; }
    RefMixmax() { seed_default(); }
    void seed_default() override { seed_val(1); }
    void stream(uint32_t c, uint32_t m, uint32_t r, uint32_t s) { v = seeder()(c, m, r, s); counter = 1; }
    void seed_val(int64_t x) override { stream(0, 0, uint32_t((uint64_t)x >> 32), (uint32_t)x); }
    void seed_seq(const std::function<Words(size_t)>& g) override { Words w = g(4); stream(w[0], w[1], w[2], w[3]); }
    void seed_iter(const Words& w, size_t& p) override { if(p + 4 > w.size()) { p = w.size(); need(false); } stream(w[p], w[p+1], w[p+2], w[p+3]); p += 4; }
    static W mulpow(W a, unsigned k) { return (W)(((u128)a << k) % P()); }
    static void step(std::vector<W>& y) {
        // y'_0 = sum of all;  y'_i = y'_{i-1} + p_i + m*p_{i-1},  p_i = y_1 + ... + y_i, m = 2^SM
        u128 s = 0; for(W a : y) s += a; s %= P();
        std::vector<W> z(N); z[0] = (W)s; W p = 0;
        for(int i = 1; i < N; ++i) { W pn = (W)(((u128)p + y[i]) % P()); z[i] = (W)(((u128)z[i-1] + pn + mulpow(p, SM)) % P()); p = pn; }
        y = z;
    }
    W next() override { if(counter >= N) { step(v); counter = 1; } return v[counter++]; }
    W min() const override { return 0; } W max() const override { return P(); }
    bool cmp(W real, W mine) const override { return real <= P() && real % P() == mine % P(); }
    std::string key() const override { std::string s; for(W a : v) s += std::to_string(a) + ","; return s + std::to_string(counter); } size_t mem() const override { return 2 * N; }
};
// ---- adaptors over reference bases
template<class B, size_t P, size_t R> struct RefDiscardBlock : RefCRTP<RefDiscardBlock<B,P,R>> {
    B b; size_t n = 0;
    RefDiscardBlock() {}
    void seed_default() override { b.seed_default(); n = 0; }
    void seed_val(int64_t v) override { b.seed_val(v); n = 0; }
    void seed_seq(const std::function<Words(size_t)>& g) override { b.seed_seq(g); n = 0; }
    void seed_iter(const Words& w, size_t& p) override { b.seed_iter(w, p); n = 0; }
    W next() override { if(n == R) { for(; n < P; ++n) b.next(); n = 0; } ++n; return b.next(); }
    W min() const override { return b.min(); } W max() const override { return b.max(); }
    std::string key() const override { return b.key() + "|" + std::to_string(n); } size_t mem() const override { return (b.mem() / R + 2) * R; }
};
template<class B, size_t K> struct RefShuffle : RefCRTP<RefShuffle<B,K>> {
    B b; std::vector<W> v; W y = 0;
    RefShuffle() { init(); }
    void init() { v.clear(); for(size_t i = 0; i < K; ++i) v.push_back(b.next()); y = b.next(); }
    void seed_default() override { b.seed_default(); init(); }
    void seed_val(int64_t s) override { b.seed_val(s); init(); }
    void seed_seq(const std::function<Words(size_t)>& g) override { b.seed_seq(g); init(); }
    void seed_iter(const Words& w, size_t& p) override { b.seed_iter(w, p); init(); }
    W next() override { u128 range = (u128)(W)(b.max() - b.min()) + 1; size_t j = (size_t)((u128)K * (W)(y - b.min()) / range); y = v[j]; v[j] = b.next(); return y; }
    W min() const override { return b.min(); } W max() const override { return b.max(); }
    std::string key() const override { std::string s = b.key() + "|"; for(W x : v) s += std::to_string(x) + ","; return s + std::to_string(y); } size_t mem() const override { return 40 * K + 10 * b.mem(); }
};
template<class B1, int S1, class B2, int S2, class T> struct RefXor : RefCRTP<RefXor<B1,S1,B2,S2,T>> {
    B1 a; B2 b;
    void seed_default() override { a.seed_default(); b.seed_default(); }
    void seed_val(int64_t s) override { a.seed_val(s); b.seed_val(s); }
    void seed_seq(const std::function<Words(size_t)>& g) override { a.seed_seq(g); b.seed_seq(g); }
    void seed_iter(const Words& w, size_t& p) override { a.seed_iter(w, p); b.seed_iter(w, p); }
    W next() override { W x = a.next(), y = b.next(); return (W)(T)((x << S1) ^ (y << S2)); }
    W min() const override { return 0; }
    W max() const override { u128 m = ((u128)a.max() << S1) | ((u128)b.max() << S2); return (W)mask_of(ilog2(m) + 1); }
    std::string key() const override { return a.key() + "^" + b.key(); } size_t mem() const override { return 2 * (a.mem() + b.mem()) + 6; }
};
template<class B1, class B2, W M1> struct RefAdd : RefCRTP<RefAdd<B1,B2,M1>> {
    B1 a; B2 b;
    void seed_default() override { a.seed_default(); b.seed_default(); }
    void seed_val(int64_t s) override { a.seed_val(s); b.seed_val(s); }
    void seed_seq(const std::function<Words(size_t)>& g) override { a.seed_seq(g); b.seed_seq(g); }
    void seed_iter(const Words& w, size_t& p) override { a.seed_iter(w, p); b.seed_iter(w, p); }
    W next() override { i128 z = (i128)a.next() - (i128)b.next(); if(z <= 0) z += M1 - 1; return (W)z; } // L'Ecuyer 1988: z in [1, m1-1]
    W min() const override { return 1; } W max() const override { return M1 - 1; }
    std::string key() const override { return a.key() + "+" + b.key(); } size_t mem() const override { return 8; }
};
// independent_bits as in the C++ standard [rand.adapt.ibits], result w bits, base values above the limits rejected
template<class B, unsigned Wd> struct RefIb : RefCRTP<RefIb<B,Wd>> {
    B b;
    void seed_default() override { b.seed_default(); }
    void seed_val(int64_t s) override { b.seed_val(s); }
    void seed_seq(const std::function<Words(size_t)>& g) override { b.seed_seq(g); }
    void seed_iter(const Words& w, size_t& p) override { b.seed_iter(w, p); }
    W next() override {
        u128 R = (u128)(W)(b.max() - b.min()) + 1; unsigned m = ilog2(R);
        unsigned n = (Wd + m - 1) / m, w0, n0; u128 y0, y1;
        auto calc = [&]{ w0 = Wd / n; n0 = n - Wd % n; y0 = (R >> w0) << w0; y1 = w0 + 1 < 128 ? (R >> (w0 + 1)) << (w0 + 1) : 0; };
        calc(); if(R - y0 > y0 / n) { ++n; calc(); }
        u128 S = 0;
        for(unsigned k = 0; k < n0; ++k) { u128 u; do u = (W)(b.next() - b.min()); while(u >= y0); S = (S << w0) + (u & mask_of(w0)); }
        for(unsigned k = n0; k < n; ++k) { u128 u; do u = (W)(b.next() - b.min()); while(u >= y1); S = (S << (w0 + 1)) + (u & mask_of(w0 + 1)); }
        return (W)S;
    }
    W min() const override { return 0; } W max() const override { return (W)mask_of(Wd); }
    std::string key() const override { return b.key(); } size_t mem() const override { return b.mem() * 2 + 8; }
};
