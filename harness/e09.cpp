// E09: seed_seq against the algorithm of the C++ standard [rand.util.seedseq], written out with 64-bit arithmetic.
#include "mc.hpp"
#include <boost/random/seed_seq.hpp>
#include <boost/range/iterator_range.hpp>
#include <random>
#include <deque>
#include <list>
#include <array>
using namespace mc; typedef unsigned long long ull;
typedef std::vector<uint32_t> V;
static V standard(const V& v, size_t n) {
    V b(n, 0x8b8b8b8bu); if(n == 0) return b;
    uint64_t M = 1ULL << 32; size_t s = v.size(), t = n >= 623 ? 11 : n >= 68 ? 7 : n >= 39 ? 5 : n >= 7 ? 3 : (n - 1) / 2, p = (n - t) / 2, q = p + t, m = std::max(s + 1, n);
    auto T = [](uint64_t x) { x &= 0xffffffffu; return x ^ (x >> 27); };
    for(size_t k = 0; k < m; ++k) {
        uint64_t r1 = 1664525ULL * T(b[k % n] ^ b[(k + p) % n] ^ b[(k + n - 1) % n]) % M;
        uint64_t r2 = (r1 + (k == 0 ? s : k <= s ? k % n + v[k - 1] : k % n)) % M;
        b[(k + p) % n] += (uint32_t)r1; b[(k + q) % n] += (uint32_t)r2; b[k % n] = (uint32_t)r2;
    }
    for(size_t k = m; k < m + n; ++k) {
        uint64_t r3 = 1566083941ULL * T((uint64_t)b[k % n] + b[(k + p) % n] + b[(k + n - 1) % n]) % M;
        uint64_t r4 = (r3 + M - k % n) % M;
        b[(k + p) % n] ^= (uint32_t)r3; b[(k + q) % n] ^= (uint32_t)r4; b[k % n] = (uint32_t)r4;
    }
    return b;
}
static std::string show(const V& v) { std::string s = "{"; for(size_t i = 0; i < v.size() && i < 6; ++i) s += fmt("%u,", v[i]); return s + (v.size() > 6 ? "...}" : "}"); }
template<class C> static bool cmp(const char* what, const V& in, const V& want, const C& got) {
    size_t i = 0; for(auto& x : got) { ++g_trans; if((uint64_t)x != want[i]) { fail(what, fmt("seed_seq%s (size %zu) generate(%zu words) into %s: word %zu is %llu, the standard's algorithm gives %u", show(in).c_str(), in.size(), want.size(), what, i, (ull)x, want[i])); return false; } ++i; }
    return true;
}
template<class SS> static bool one_len(const SS& s, const V& in, size_t n, bool types) {
    V want = standard(in, n); ++g_execs; ++g_states; ++g_traces; ctx("seed_seq%s generate %zu", show(in).c_str(), n);
    // guard words on both sides
    V buf(n + 2, 0xABCD0123u); s.generate(buf.begin() + 1, buf.begin() + 1 + n);
    if(buf[0] != 0xABCD0123u || buf[n + 1] != 0xABCD0123u) { fail("outside", fmt("generate(%zu words) writes outside its range", n)); return false; }
    if(!cmp("uint32_t[]", in, want, V(buf.begin() + 1, buf.end() - 1))) return false;
    V again(n, 7); s.generate(again.data(), again.data() + n); if(!cmp("uint32_t* again", in, want, again)) return false;
    if(types) {
        std::vector<uint64_t> u(n, ~0ULL); s.generate(u.begin(), u.end()); if(!cmp("uint64_t[]", in, want, u)) return false;
        std::vector<unsigned long long> ul(n, 5); s.generate(&ul[0], &ul[0] + n); if(!cmp("unsigned long long[]", in, want, ul)) return false;
        std::deque<uint32_t> d(n, 9); s.generate(d.begin(), d.end()); if(!cmp("deque<uint32_t>", in, want, d)) return false;
        std::deque<uint64_t> d8(n, 9); s.generate(d8.begin(), d8.end()); if(!cmp("deque<uint64_t>", in, want, d8)) return false;
        V rev(n); s.generate(rev.rbegin(), rev.rend()); std::reverse(rev.begin(), rev.end()); if(!cmp("reverse iterators", in, want, rev)) return false;
    }
    return true;
}
static bool stored(boost::random::seed_seq& s, const V& in, const char* how) {
    if(s.size() != in.size()) { fail("size", fmt("%s: size() %zu, %zu values given", how, s.size(), in.size())); return false; }
    V got; s.param(std::back_inserter(got)); if(got != in) { fail("param", fmt("%s: param() reports %s, given %s", how, show(got).c_str(), show(in).c_str())); return false; }
    return true;
}
template<class T> static void conv(const char* nm, std::vector<T> src) {
    V in; for(T x : src) in.push_back((uint32_t)(uint64_t)(int64_t)x); ctx("construction from %s", nm); ++g_states; ++g_traces;
    auto chk = [&](boost::random::seed_seq s, const char* how) { if(!stored(s, in, fmt("%s of %s", how, nm).c_str())) return; for(size_t n : {1, 4, 9, 40}) if(!one_len(s, in, n, true)) return; stored(s, in, "after generate"); };
    chk(boost::random::seed_seq(src.begin(), src.end()), "iterators"); chk(boost::random::seed_seq(src.data(), src.data() + src.size()), "pointers");
    std::list<T> l(src.begin(), src.end()); chk(boost::random::seed_seq(l.begin(), l.end()), "list iterators"); chk(boost::random::seed_seq(l), "list range"); chk(boost::random::seed_seq(src), "vector range");
    chk(boost::random::seed_seq(boost::make_iterator_range(src.begin(), src.end())), "iterator_range");
    if(src.size() == 3) { boost::random::seed_seq s({src[0], src[1], src[2]}); chk(s, "initializer list"); T arr[3] = {src[0], src[1], src[2]}; chk(boost::random::seed_seq(arr), "array"); }
    if(src.size() == 1) { boost::random::seed_seq s({src[0]}); chk(s, "initializer list"); }
}
MC_MAIN({
    // every small input list x every output length
    for(int part = 0; part < 8; ++part) add(fmt("input lists over a small alphabet, part %d", part), [part] {
        const uint32_t al[] = {0, 1, 0x7fffffff, 0x80000000u, 0xffffffffu}; size_t A = 5, idx = 0;
        for(size_t len = 0; len <= (thorough() ? 6u : 4u); ++len) { size_t tot = 1; for(size_t i = 0; i < len; ++i) tot *= A;
            for(size_t c = 0; c < tot; ++c, ++idx) { if(idx % 8 != (size_t)part) continue; V in; size_t q = c; for(size_t i = 0; i < len; ++i) { in.push_back(al[q % A]); q /= A; }
                boost::random::seed_seq s(in.begin(), in.end()); if(!stored(s, in, "iterators")) return;
                for(size_t n = 0; n <= (len <= 3 ? 80u : 14u); ++n) if(!one_len(s, in, n, true)) return;
                if(!stored(s, in, "after generate")) return; } }
        sample("output lengths 0..80"); });
    // every output length up to beyond the last threshold x input lengths around it
    for(int part = 0; part < 8; ++part) add(fmt("output lengths, part %d", part), [part] {
        for(size_t n = part; n <= (thorough() ? 2100u : 700u); n += 8) for(size_t len : {size_t(0), size_t(1), size_t(2), size_t(5), n ? n - 1 : 0, n, n + 1, n + 2, 2 * n, 2 * n + 1, 3 * n + 2}) {
            V in; for(size_t i = 0; i < len; ++i) in.push_back(uint32_t(0x9e3779b9u * (i + 1) + n)); boost::random::seed_seq s(in.begin(), in.end());
            if(!one_len(s, in, n, n % 5 == 0)) return; }
        sample("all lengths in the stride class"); });
    // input lengths 0..300 for fixed output lengths
    add("input lengths", [] { V in; for(size_t len = 0; len < 300; ++len) { boost::random::seed_seq s(in.begin(), in.end()); if(!stored(s, in, "iterators")) return; for(size_t n : {1, 2, 3, 6, 7, 8, 17, 38, 39, 67, 68, 227, 622, 623, 624}) if(!one_len(s, in, n, false)) return; in.push_back(uint32_t(len * 2654435761u + 1)); } });
    add("element types", [] {
        conv<int>("int", {-1, 5, -2147483647 - 1}); conv<int>("int", {-7}); conv<long>("long", {-1L, 1L << 40, (1L << 33) + 5}); conv<unsigned long>("unsigned long", {~0UL, 1UL << 32, 7}); conv<short>("short", {-1, 2, -32768}); conv<unsigned short>("unsigned short", {65535, 2, 3});
        conv<signed char>("signed char", {-1, 2, -128}); conv<uint32_t>("uint32_t", {1, 2, ~0u}); conv<uint32_t>("uint32_t", {9}); conv<long long>("long long", {(-1LL) << 40, 3, -2}); conv<unsigned char>("unsigned char", {255, 0, 128}); conv<int>("int", {}); });
    add("default and copies", [] {
        boost::random::seed_seq s; if(!stored(s, {}, "default construction")) return; for(size_t n = 0; n < 700; ++n) if(!one_len(s, {}, n, n < 100)) return;
        V in = {3, 1, 4, 1, 5}; boost::random::seed_seq a(in.begin(), in.end()), b(a); s = a; if(!stored(s, in, "assignment") || !stored(b, in, "copy")) return; for(size_t n = 0; n < 50; ++n) if(!one_len(b, in, n, true) || !one_len(s, in, n, true) || !one_len(a, in, n, true)) return; });
})
