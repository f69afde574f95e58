// Scripted integer engine whose bounds are chosen at run time.
#pragma once
#include "script.hpp"
template<class T, int Tag = 0> struct DynEng {
    typedef T result_type; static const bool has_fixed_range = false;
    T mn, mx; uint64_t span;   // mx - mn
    T min BOOST_PREVENT_MACRO_SUBSTITUTION () const { return mn; }
    T max BOOST_PREVENT_MACRO_SUBSTITUTION () const { return mx; }
    T operator()() { return T(mn + T(g_tape[Tag]->next(span))); }
};
// bounds [lo, lo + span] for a built-in type, without overflow
template<class T> inline T at_off(T lo, uint64_t off) { typedef typename uns<T>::type U; return (T)(U)((U)lo + (U)off); }
template<class T, int Tag = 0> inline DynEng<T, Tag> dyn(T lo, uint64_t span) { return DynEng<T, Tag>{lo, at_off(lo, span), span}; }
template<class T> inline uint64_t type_span() { typedef typename uns<T>::type U; return (uint64_t)(U)~(U)0; }
// lower bounds for an interval of the given span: ends of the type, around zero, plain
template<class T> inline std::vector<T> lows(uint64_t span) {
    std::vector<T> r; typedef std::numeric_limits<T> L; auto put = [&](T v) { if((uint64_t)(typename uns<T>::type)((typename uns<T>::type)(L::max)() - (typename uns<T>::type)v) >= span && std::find(r.begin(), r.end(), v) == r.end()) r.push_back(v); };
    put((L::min)()); put(0); put(at_off((L::max)(), -span)); put(7); if(L::is_signed) { put((T)-1); put(at_off(T(0), -(span / 2))); put(at_off(T(0), -span)); } return r;
}
