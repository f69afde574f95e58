// Type-erased view of an engine through its public interface only.
#pragma once
#include "mc.hpp"
#include <boost/random/seed_seq.hpp>
#include <memory>
#include <stdexcept>
#include <type_traits>
#include <limits>
#include <iterator>

typedef uint64_t W;               // canonical output word (integers: value; reals: value * 2^bits)
typedef std::vector<uint32_t> Words;

// A SeedSeq that hands out given words (cyclically) and records the requests made.
struct ScriptSeq {
    typedef uint32_t result_type;
    Words w; std::vector<size_t> req;
    ScriptSeq(const Words& v) : w(v) {}
    template<class It> void generate(It f, It l) { size_t i = 0; req.push_back(l - f); for(; f != l; ++f, ++i) *f = w[i % w.size()]; }
    size_t size() const { return w.size(); }
};

// Single-pass input iterator over words that reports reads past the end.
struct CheckIt {
    typedef std::input_iterator_tag iterator_category; typedef uint32_t value_type; typedef std::ptrdiff_t difference_type;
    typedef const uint32_t* pointer; typedef const uint32_t& reference;
    const Words* w; size_t i;
    const uint32_t& operator*() const { if(i >= w->size()) { mc::fail("overread", mc::fmt("word %zu of %zu read", i, w->size())); static uint32_t z = 0; return z; } return (*w)[i]; }
    CheckIt& operator++() { ++i; return *this; }
    CheckIt operator++(int) { CheckIt c = *this; ++i; return c; }
    bool operator==(const CheckIt& o) const { return i == o.i; } bool operator!=(const CheckIt& o) const { return i != o.i; }
};
// arithmetic types a seed value can come in
enum { K_I8, K_U8, K_I16, K_U16, K_I32, K_U32, K_I64, K_U64, K_FLOAT, K_DOUBLE, K_LDOUBLE, K_COUNT };
inline bool kind_holds(int k, int64_t v) {
    switch(k) { case K_I8: return v >= -128 && v < 128; case K_U8: return v >= 0 && v < 256; case K_I16: return v >= -32768 && v < 32768; case K_U16: return v >= 0 && v < 65536;
      case K_I32: return v == (int32_t)v; case K_U32: return v == (int64_t)(uint32_t)v; case K_I64: return true; case K_U64: return v >= 0;
      case K_FLOAT: return v >= 0 && v < (1 << 24); case K_DOUBLE: return v >= 0 && v < (1LL << 53); default: return v >= 0; }
}
template<class F> inline void with_kind(int k, int64_t v, F f) {
    switch(k) { case K_I8: f((signed char)v); break; case K_U8: f((unsigned char)v); break; case K_I16: f((short)v); break; case K_U16: f((unsigned short)v); break;
      case K_I32: f((int)v); break; case K_U32: f((unsigned)v); break; case K_I64: f((long)v); break; case K_U64: f((unsigned long)v); break;
      case K_FLOAT: f((float)v); break; case K_DOUBLE: f((double)v); break; default: f((long double)v); }
}

struct AnyEngine {
    virtual ~AnyEngine() {}
    virtual W next() = 0;
    virtual void discard(uint64_t z) = 0;
    virtual void seed() = 0;
    virtual void seed_val(int64_t v) = 0;
    virtual void seed_seq(ScriptSeq& s) = 0;
    virtual void seed_bseq(boost::random::seed_seq& s) = 0;
    virtual size_t seed_iter(const Words& w) = 0;         // returns words consumed, may throw
    virtual size_t seed_iter_used() const = 0;            // words consumed by the last (failed) call
    virtual std::unique_ptr<AnyEngine> clone() const = 0; // copy construction
    virtual void assign(const AnyEngine& o) = 0;
    virtual bool eq(const AnyEngine& o) const = 0;
    virtual bool ne(const AnyEngine& o) const = 0;
    virtual void write(std::ostream& os) const = 0;
    virtual bool read(std::istream& is) = 0;
    virtual bool wide() const = 0;
    virtual void wwrite(std::wostream& os) const = 0;
    virtual bool wread(std::wistream& is) = 0;
    virtual W min() const = 0;
    virtual W max() const = 0;
    virtual void generate(uint32_t* f, uint32_t* l) = 0;
    virtual std::unique_ptr<AnyEngine> fresh() const = 0;                 // default constructed
    virtual std::unique_ptr<AnyEngine> ctor_val(int64_t v) const = 0;
    virtual std::unique_ptr<AnyEngine> ctor_kind(int k, int64_t v) const = 0;
    virtual void seed_kind(int k, int64_t v) = 0;
    virtual int64_t seed_as(int64_t v) const = 0;  // v in the engine's seed type
    virtual std::unique_ptr<AnyEngine> ctor_seq(ScriptSeq& s) const = 0;
    virtual std::unique_ptr<AnyEngine> ctor_iter(const Words& w, size_t& used) const = 0;
    virtual bool out_ok(std::string& why) const = 0;  // last raw output within [min,max] as the engine's own type
    virtual const void* raw() const = 0;
    virtual bool iter() const = 0;                    // offers iterator seeding
};
typedef std::unique_ptr<AnyEngine> EP;

template<class T> inline typename std::enable_if<std::is_integral<T>::value, W>::type canon(T v, int) { return (W)v; }
template<class T> inline typename std::enable_if<!std::is_arithmetic<T>::value, W>::type canon(const T& v, int bits) {   // user-defined reals
    T x = ldexp(v, bits); if(!(x >= 0 && x < ldexp(T(1), 64) && x == floor(x))) return ~W(0) - 12345;
    W hi = (W)T(floor(ldexp(x, -32))), lo = (W)T(x - ldexp(T(hi), 32)); return hi << 32 | lo;
}
template<class T> inline typename std::enable_if<std::is_floating_point<T>::value, W>::type canon(T v, int bits) {
    long double x = std::ldexp((long double)v, bits);
    if(!(x >= 0 && x < 18446744073709551616.0L && x == std::floor(x))) return ~W(0) - 12345; // not a multiple of 2^-bits: no reference value
    return (W)x;
}
template<class T, class U> auto seed_conv(int64_t v) { return (T)v; }

template<class E, class SeedT, int Bits> struct EngineT : AnyEngine {
    typedef typename E::result_type R;
    static constexpr bool has_iter = std::is_constructible<E, CheckIt&, CheckIt>::value;
    E e; size_t used = 0; R last = R(); bool drawn = false;
    EngineT() : e() {}
    struct FromVal {}; struct FromSeq {}; 
    EngineT(const E& x) : e(x) {}
    W next() override { last = e(); drawn = true; return canon(last, Bits); }
    void discard(uint64_t z) override { e.discard(z); }
    void seed() override { e.seed(); }
    void seed_val(int64_t v) override { e.seed((SeedT)v); }
    void seed_seq(ScriptSeq& s) override { e.seed(s); }
    void seed_bseq(boost::random::seed_seq& s) override { e.seed(s); }
    size_t seed_iter(const Words& w) override { CheckIt f{&w, 0}, l{&w, w.size()}; used = 0;
        if constexpr(has_iter) { try { e.seed(f, l); } catch(...) { used = f.i; throw; } } return used = f.i; }
    size_t seed_iter_used() const override { return used; }
    EP clone() const override { auto p = std::unique_ptr<EngineT>(new EngineT(e)); p->last = last; p->drawn = drawn; return EP(std::move(p)); }
    static const E& of(const AnyEngine& o) { return static_cast<const EngineT&>(o).e; }
    void assign(const AnyEngine& o) override { e = of(o); }
    bool eq(const AnyEngine& o) const override { return e == of(o); }
    bool ne(const AnyEngine& o) const override { return e != of(o); }
    void write(std::ostream& os) const override { os << e; }
    bool read(std::istream& is) override { is >> e; return !is.fail(); }
    bool wide() const override { return std::is_arithmetic<R>::value; }   // user-defined numbers have narrow text only
    void wwrite(std::wostream& os) const override { if constexpr(std::is_arithmetic<R>::value) os << e; }
    bool wread(std::wistream& is) override { if constexpr(std::is_arithmetic<R>::value) is >> e; return !is.fail(); }
    W min() const override { return canon((E::min)(), Bits); }
    W max() const override { return canon((E::max)(), Bits); }
    void generate(uint32_t* f, uint32_t* l) override { e.generate(f, l); }
    EP fresh() const override { return EP(new EngineT()); }
    EP ctor_val(int64_t v) const override { E x((SeedT)v); return EP(new EngineT(x)); }
#ifdef ENGINE_KINDS
    EP ctor_kind(int k, int64_t v) const override { EP r; with_kind(k, v, [&](auto t) { E x(t); r.reset(new EngineT(x)); }); return r; }
    void seed_kind(int k, int64_t v) override { with_kind(k, v, [&](auto t) { e.seed(t); }); }
#else
    EP ctor_kind(int, int64_t) const override { return EP(); }
    void seed_kind(int, int64_t) override {}
#endif
    int64_t seed_as(int64_t v) const override { return (int64_t)(SeedT)v; }
    EP ctor_seq(ScriptSeq& s) const override { E x(s); return EP(new EngineT(x)); }
    EP ctor_iter(const Words& w, size_t& used) const override { CheckIt f{&w, 0}, l{&w, w.size()}; if constexpr(has_iter) { E x(f, l); used = f.i; return EP(new EngineT(x)); } return EP(); }
    bool iter() const override { return has_iter; }
    bool out_ok(std::string& why) const override {
        if(!drawn) return true;
        bool ok = last >= (E::min)() && (std::is_integral<R>::value ? last <= (E::max)() : last < (E::max)());
        if(!ok) { std::ostringstream s; s << "output " << +last << " outside [" << +(E::min)() << ", " << +(E::max)() << (std::is_integral<R>::value ? "]" : ")"); why = s.str(); }
        return ok;
    }
    const void* raw() const override { return &e; }
};

struct Ref {   // boring reference model of an engine (ref.hpp)
    virtual ~Ref() {}
    virtual W next() = 0;
    virtual std::unique_ptr<Ref> clone() const = 0;
    virtual void seed_default() = 0;
    virtual void seed_val(int64_t v) = 0;
    virtual void seed_seq(const std::function<Words(size_t)>& gen) = 0;
    virtual void seed_iter(const Words& w, size_t& pos) = 0;  // throws std::invalid_argument
    virtual W min() const = 0; virtual W max() const = 0;
    virtual std::string key() const = 0;                       // canonical state
    virtual size_t mem() const = 0;                            // outputs that determine the state
    virtual bool cmp(W real, W mine) const { return real == mine; }
};
typedef std::unique_ptr<Ref> RP;

struct Entry {
    std::string name; int bits;      // bits > 0: floating-point engine of that resolution
    std::function<EP()> make; std::function<RP()> ref;
    size_t phase;                    // length of the internal block (positions that behave differently)
    bool tiny;                       // state space small enough to enumerate
    int cost;                        // relative cost of one step / state size
};
inline std::vector<Entry>& entries() { static std::vector<Entry> e; return e; }
template<class E, class SeedT, int Bits, class R> inline int reg(const char* nm, size_t phase, bool tiny, int cost = 1) {
    Entry x; x.name = nm; x.bits = Bits; x.make = [] { return EP(new EngineT<E, SeedT, Bits>()); };
    x.ref = [] { return RP(new R()); }; x.phase = phase; x.tiny = tiny; x.cost = cost;
    entries().push_back(x); return 0;
}
