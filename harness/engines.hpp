#pragma once
#include "ref.hpp"
void reg_a(); void reg_b(); void reg_c(); void reg_d(); void reg_e();
// MIXMAX stream seeding from first principles: stream (c,m,r,s) is reached from the unit vector by
// jumping A^(2^e) for each set bit, e counted from MIXMAX_E0 per bit (found once; a published constant).
inline void init_mixmax() {
    const int N = 17; typedef std::vector<W> V; typedef std::vector<V> M;
    static std::vector<M> pw;   // pw[k]: columns of A^(2^(E0+k))
    auto P = RefMixmax<17,36>::P();
    static int E0 = 512;
    auto mul = [=](const M& a, const M& b) { M r(N, V(N)); for(int c = 0; c < N; ++c) for(int i = 0; i < N; ++i) { u128 s = 0; for(int j = 0; j < N; ++j) s += (u128)a[j][i] * b[c][j] % P; r[c][i] = (W)(s % P); } return r; };
    if(pw.empty()) {
        M a(N); for(int c = 0; c < N; ++c) { V e(N, 0); e[c] = 1; RefMixmax<17,36>::step(e); a[c] = e; }
        for(int i = 0; i < E0; ++i) a = mul(a, a);
        for(int k = 0; k < 128; ++k) { pw.push_back(a); a = mul(a, a); }
    }
    RefMixmax<17,36>::seeder() = [=](uint32_t c, uint32_t m, uint32_t r, uint32_t s) {
        V v(N, 0); v[0] = 1; uint32_t id[4] = {s, r, m, c};
        for(int q = 0; q < 4; ++q) for(int b = 0; b < 32; ++b) if(id[q] >> b & 1) {
            const M& a = pw[q * 32 + b]; V w(N);
            for(int i = 0; i < N; ++i) { u128 t = 0; for(int j = 0; j < N; ++j) t += (u128)a[j][i] * v[j] % P; w[i] = (W)(t % P); } v = w; }
        return v;
    };
}
inline void init_engines() { init_mixmax(); reg_a(); reg_b(); reg_c(); reg_d(); reg_e(); }
