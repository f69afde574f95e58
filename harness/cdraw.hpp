// One draw of a distribution from an explicit list of engine values.
#pragma once
#include "dyneng.hpp"
#include <boost/random/exponential_distribution.hpp>
#include <boost/random/normal_distribution.hpp>
#include <boost/random/uniform_01.hpp>
typedef long double LD; typedef std::vector<uint64_t> Vals; static const LD INF = std::numeric_limits<LD>::infinity();
// Values read past the end of the list are ordinary ones (a fixed mixing of the position), and counted.
struct Src { Tape t; DynEng<uint64_t> e = dyn<uint64_t>(0, ~0ULL); Vals s; size_t used = 0, limit = 100000;
    Src() { t.fn = [this](uint64_t) -> uint64_t { size_t k = t.calls - 1; if(k > limit) throw std::runtime_error("a draw does not end on ordinary values"); if(k < s.size()) return s[k]; uint64_t z = (k + 1 - s.size()) * 0x9e3779b97f4a7c15ULL; z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ULL; z = (z ^ z >> 27) * 0x94d049bb133111ebULL; return z ^ z >> 31; }; }
    Src(const Src&) = delete;
    template<class F> auto run(F f) -> decltype(f(e)) { struct G { Tape* o; G(Tape* t) : o(g_tape[0]) { g_tape[0] = t; } ~G() { g_tape[0] = o; } } g(&t); t.calls = 0; t.log.clear(); ++mc::g_execs; ++mc::g_states; auto v = f(e); used = t.calls; return v; }
    // draw with the given values first
    template<class D> auto draw(D& d, const Vals& v) -> decltype(d(e)) { s = v; return run([&](DynEng<uint64_t>& g) { return d(g); }); }
};
// engine value giving the uniform u (to the resolution of the type) and one giving an exponential from the widest layer
inline uint64_t uval(LD u) { return u <= 0 ? 0 : u >= 1 ? ~0ULL : (uint64_t)std::ldexp(u, 64); }
inline uint64_t layer(unsigned b, LD r) { return (uint64_t)std::ldexp(r, 56) << 8 | b; }
