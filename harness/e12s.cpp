// E12 (ranges): generate() of the library's adaptors over scripted engines of every range and type, and element types.
#include "script.hpp"
#include "bitpack.hpp"
#include <boost/random/discard_block.hpp>
#include <boost/random/shuffle_order.hpp>
#include <boost/random/independent_bits.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/linear_congruential.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/ranlux.hpp>
#include <boost/random/splitmix64.hpp>
#include <boost/random/mixmax.hpp>
#include <boost/random/inversive_congruential.hpp>
#include <boost/random/taus88.hpp>
#include <boost/random/additive_combine.hpp>
#include <list>
#include <deque>
#include <utility>
using namespace mc; namespace br = boost::random;
// output iterator that records assignments
struct OutIt { typedef std::forward_iterator_tag iterator_category; typedef uint64_t value_type; typedef std::ptrdiff_t difference_type; typedef uint64_t* pointer; typedef uint64_t& reference;
    std::vector<std::pair<size_t, uint64_t>>* log; size_t i; struct Ref { std::vector<std::pair<size_t, uint64_t>>* log; size_t i; template<class T> Ref& operator=(T v) { log->push_back({i, (uint64_t)v}); return *this; } };
    Ref operator*() const { return Ref{log, i}; } OutIt& operator++() { ++i; return *this; } OutIt operator++(int) { OutIt c = *this; ++i; return c; } bool operator==(const OutIt& o) const { return i == o.i; } bool operator!=(const OutIt& o) const { return i != o.i; } };
template<class T, T Min, T Max> static void range_check(const char* nm) {
    if(st().nfail) return;
    typedef SEng<T, Min, Max> B; typedef br::discard_block_engine<B, 1, 1> E; u128 R = (u128)B::span() + 1; BitPack bp = BitPack::of_range(R); UseTape u;
    ctx("generate over %s (%llu values - 1)", nm, (ull)B::span());
    std::vector<uint64_t> a; if(R <= 128) for(uint64_t i = 0; i < R; ++i) a.push_back(i);
    else { std::set<uint64_t> s; for(u128 c : {u128(0), R - 1, bp.limit, bp.limit - 1, R / 2, R / 3}) for(int d = -1; d <= 1; ++d) { i128 v = (i128)c + d; if(v >= 0 && (u128)v < R) s.insert((uint64_t)v); } for(int b = 0; b < 64; ++b) if((u128(1) << b) < R) s.insert(uint64_t(1) << b); a.assign(s.begin(), s.end()); }
    size_t per = (32 + bp.bits - 1) / bp.bits + 1;
    // every value at every draw position of three words, with three backgrounds and one rejection placed anywhere
    for(size_t n = 0; n <= 3; ++n) for(size_t at = 0; at < (n ? std::min<size_t>(per * n, 40) : 1); ++at) for(uint64_t v : a) for(uint64_t bg : {uint64_t(0), (uint64_t)(bp.limit - 1), (uint64_t)(bp.limit / 3)}) {
        auto run = [&](const std::function<uint64_t(size_t)>& val) {
            size_t k = 0; u.t.calls = 0; u.t.log.clear(); u.t.fn = [&](uint64_t) { return val(k++); }; std::vector<std::pair<size_t, uint64_t>> log; E e((B())); e.generate(OutIt{&log, 0}, OutIt{&log, n});
            size_t j = 0, used; std::vector<uint32_t> want = bp.words(n, [&] { return val(j++); }, &used); ++g_execs; ++g_states; ++g_traces;
            bool ok = log.size() == n && u.t.calls == used; for(size_t i = 0; ok && i < n; ++i) ok = log[i].first == i && log[i].second == want[i];
            if(!ok) fail("words", fmt("generate(%zu words) from an engine of %s with offset %llu at draw %zu, background %llu: %zu writes, %llu engine values; first word %llu; expected %zu values, %u", n, nm, (ull)v, at, (ull)bg, log.size(), (ull)u.t.calls, log.empty() ? 0 : (ull)log[0].second, used, want.empty() ? 0 : want[0]));
            return ok; };
        if(!run([&](size_t k) { return k == at ? v : bg; })) return;
        if(n == 0) return;
    }
    // each accepted low-bit pattern comes from equally many engine values
    if(R <= 4096) { std::map<uint64_t, uint64_t> c; uint64_t rej = 0; for(uint64_t v = 0; v < R; ++v) {
            size_t k = 0; u.t.calls = 0; u.t.fn = [&](uint64_t) { return k++ == 0 ? v : 0; }; uint64_t out = 0; E e((B())); e.generate(&out, &out + 1); ++g_execs;
            size_t plain = (32 + bp.bits - 1) / bp.bits; if(u.t.calls == plain) ++c[out]; else { ++rej; if(out != 0) fail("reject", "rejected value leaves a trace"); } }
        for(auto& p : c) if(p.second != c.begin()->second) { fail("bias", fmt("generate over an engine of %s: first word %llu comes from %llu engine values, %llu from %llu", nm, (ull)p.first, (ull)p.second, (ull)c.begin()->first, (ull)c.begin()->second)); return; } }
}
template<class T, T Min, size_t... R> static void ranges(const char* nm, std::index_sequence<R...>) { int d[] = {(range_check<T, Min, T(Min + (T)(R + 1))>(fmt("%s, %zu values", nm, R + 2).c_str()), 0)...}; (void)d; }
template<class E> static void elements(const char* nm) {
    ctx("%s element types", nm); E proto; 
    for(size_t n = 0; n < 40; ++n) for(int adv : {0, 1, 5}) {
        E a(proto); for(int i = 0; i < adv; ++i) a(); E b(a); std::vector<uint32_t> base(n + 1, 7); b.generate(base.begin(), base.begin() + n); ++g_execs; ++g_states;
        auto same = [&](const char* what, auto&& c, E& e) { size_t i = 0; for(auto& x : c) { if(i == n) break; if((u128)x != base[i]) { fail(std::string("element ") + what, fmt("%s: generate into %s: element %zu is %llu, into uint32_t it is %u", nm, what, i, (ull)x, base[i])); return; } ++i; ++g_trans; }
            if(!(e == b)) fail(std::string("state ") + what, fmt("%s: generate into %s leaves another engine state", nm, what)); ++g_traces; };
        { E e(a); std::vector<uint64_t> v(n, ~0ULL); e.generate(v.begin(), v.end()); same("vector<uint64_t>", v, e); }
        { E e(a); std::vector<long long> v(n, -1); e.generate(v.begin(), v.end()); same("vector<long long>", v, e); }
        { E e(a); std::list<uint32_t> v(n, 9); e.generate(v.begin(), v.end()); same("list<uint32_t>", v, e); }
        { E e(a); std::deque<uint64_t> v(n, 9); e.generate(v.begin(), v.end()); same("deque<uint64_t>", v, e); }
        { E e(a); std::vector<uint32_t> v(n + 1, 9); e.generate(&v[0], &v[0] + n); same("uint32_t*", v, e); }
        { E e(a); std::vector<std::pair<size_t, uint64_t>> log; e.generate(OutIt{&log, 0}, OutIt{&log, n}); std::vector<uint64_t> v; bool ok = log.size() == n; for(size_t i = 0; ok && i < n; ++i) { ok = log[i].first == i; v.push_back(log[i].second); } if(!ok) fail("writes", fmt("%s: generate(%zu) performs %zu writes", nm, n, log.size())); else same("recording iterator", v, e); }
    }
}
MC_MAIN({
#if PART == 0
    add("u32 ranges 2..48", [] { ranges<uint32_t, 0>("u32 from 0", std::make_index_sequence<47>()); sample("every value at every draw position"); }); add("i32 ranges", [] { ranges<int32_t, -9>("i32 from -9", std::make_index_sequence<20>()); });
#elif PART == 1
    add("i16 ranges", [] { ranges<int16_t, -3>("i16 from -3", std::make_index_sequence<20>()); }); add("u16 ranges", [] { ranges<uint16_t, 60000>("u16 from 60000", std::make_index_sequence<20>()); }); add("u64 ranges", [] { ranges<uint64_t, 1>("u64 from 1", std::make_index_sequence<20>()); });
#elif PART == 2
#define W(T, a, b) add("wide " #T " " #a ".." #b, [] { range_check<T, a, b>(#T " " #a ".." #b); });
    W(uint16_t, 0, 65535) W(int16_t, -32768, 32767) W(uint16_t, 0, 32767) W(uint16_t, 1, 1000) W(uint32_t, 0, 0xffffffffu) W(int32_t, (-2147483647 - 1), 2147483647) W(uint32_t, 0, 0x7fffffff) W(uint32_t, 1, 2147483646) W(uint32_t, 0, 0xfffffffau) W(uint32_t, 0, 0xffffff) W(uint32_t, 0, 1000000)
    W(uint64_t, 0, ~0ULL) W(int64_t, INT64_MIN, INT64_MAX) W(uint64_t, 0, 0xffffffffULL) W(uint64_t, 0, 0x1ffffffffULL) W(uint64_t, 0, 0xffffffffffffULL) W(uint64_t, 0, (1ULL << 61) - 1) W(uint64_t, 0, (1ULL << 61) - 2) W(uint64_t, 0, (1ULL << 63) - 1) W(uint64_t, 0, ~0ULL - 59) W(uint64_t, 1, 3ULL << 40) W(int64_t, -1, (1LL << 40)) W(uint64_t, 0, 0x1ffffULL) W(uint64_t, 0, 0x7fffffffffULL) W(int64_t, 0, 0x3fffffffLL)
#else
#define EL(E) add("elements " #E, [] { elements<br::E>(#E); });
    EL(mt19937) EL(mt19937_64) EL(minstd_rand) EL(rand48) EL(ranlux24) EL(ranlux48) EL(ranlux64_3_01) EL(lagged_fibonacci607) EL(taus88) EL(ecuyer1988) EL(hellekalek1995) EL(kreutzer1986) EL(knuth_b) EL(mixmax) EL(ranlux3_01)
#endif
})
