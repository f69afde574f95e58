// Scripted engines: the explorer decides every value they return.
#pragma once
#include "mc.hpp"
#include <boost/random/seed_seq.hpp>
typedef unsigned __int128 u128; typedef __int128 i128; typedef unsigned long long ull; typedef long long ll;
// The tape the scripted engines read: offsets from min().  A full-range tape enumerates every value;
// an alphabet tape enumerates the given offsets only.
struct Tape {
    mc::Chooser* ch = nullptr; const std::vector<uint64_t>* alpha = nullptr; std::vector<uint64_t> log; std::function<uint64_t(uint64_t)> fn; uint64_t calls = 0;
    uint64_t next(uint64_t span) {   // span = max - min
        ++calls; ++mc::g_trans; uint64_t v; if(log.size() > 200000) throw std::runtime_error("a draw used more than 200000 engine values");
        if(fn) v = fn(span);
        else if(alpha) v = (*alpha)[ch->pick((uint32_t)alpha->size())];
        else v = ch->pick((uint32_t)(span + 1));
        log.push_back(v); return v;
    }
};
inline Tape* g_tape[4];
template<class T> struct uns { typedef typename std::make_unsigned<T>::type type; };
template<class T, T Min, T Max, int Tag = 0> struct SEng {
    typedef T result_type; static const bool has_fixed_range = false; static const T modulus = T(Max + 1);
    uint64_t serial = 0;
    static constexpr T min BOOST_PREVENT_MACRO_SUBSTITUTION () { return Min; }
    static constexpr T max BOOST_PREVENT_MACRO_SUBSTITUTION () { return Max; }
    static uint64_t span() { typedef typename uns<T>::type U; return (uint64_t)(U)((U)Max - (U)Min); }
    T operator()() { ++serial; typedef typename uns<T>::type U; return (T)(U)((U)Min + (U)g_tape[Tag]->next(span())); }
    void seed() { serial = 0; }
    template<class X> void seed(X&&) { serial = 0; }
    void discard(boost::uintmax_t z) { while(z--) (*this)(); }
    bool operator==(const SEng& o) const { return serial == o.serial; }
};
// floating-point engine with values k / 2^Bits in [0, 1)
template<class T, int Bits, int Tag = 0> struct SReal {
    typedef T result_type; static const bool has_fixed_range = false;
    static constexpr T min BOOST_PREVENT_MACRO_SUBSTITUTION () { return 0; }
    static constexpr T max BOOST_PREVENT_MACRO_SUBSTITUTION () { return 1; }
    static uint64_t span() { return Bits >= 64 ? ~uint64_t(0) : (uint64_t(1) << (Bits & 63)) - 1; }
    T operator()() { return std::ldexp((T)g_tape[Tag]->next(span()), -Bits); }
};
struct UseTape { Tape t; int tag; Tape* old; UseTape(int g = 0) : tag(g), old(g_tape[g]) { g_tape[g] = &t; } ~UseTape() { g_tape[tag] = old; } };
// exact counts per (number of engine values used, result)
template<class K> struct Tally {
    std::map<size_t, std::map<K, uint64_t>> n; uint64_t limited = 0;
    void put(size_t d, const K& k) { ++n[d][k]; }
};
