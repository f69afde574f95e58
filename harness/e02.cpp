// E02: save/restore of every engine: source position x prior state of the target x data that follows.
#include "ecommon.hpp"
template<class C> struct IO;
template<> struct IO<char> { typedef std::stringstream S; static void w(const AnyEngine& e, S& s) { e.write(s); } static bool r(AnyEngine& e, S& s) { return e.read(s); } static const char* nm() { return "char"; } };
template<> struct IO<wchar_t> { typedef std::wstringstream S; static void w(const AnyEngine& e, S& s) { e.wwrite(s); } static bool r(AnyEngine& e, S& s) { return e.wread(s); } static const char* nm() { return "wchar_t"; } };
template<class C> static bool one(Entry& e, const AnyEngine& src, const AnyEngine& src2, const std::vector<EP>& targets, const std::string& what, size_t h, bool layouts) {
    typedef typename IO<C>::S S;
    S t; IO<C>::w(src, t); std::basic_string<C> text = t.str(); S t2; IO<C>::w(src2, t2); std::basic_string<C> text2 = t2.str();
    if(text.empty()) { fail("empty", e.name + ": nothing written"); return false; }
    for(size_t k = 0; k < targets.size(); ++k) {
        EP b = targets[k]->clone(); S in(text); ++g_execs; ctx("%s %s: restore into target %zu", e.name.c_str(), what.c_str(), k);
        if(!IO<C>::r(*b, in)) { fail(std::string("read-fails-") + IO<C>::nm(), fmt("%s: %s: reading back its own text fails (target %zu)", e.name.c_str(), what.c_str(), k)); return false; }
        size_t at; W x, y; EP s = src.clone();
        if(!b->eq(src)) { fail("not-equal", fmt("%s: %s: restored engine (target %zu) does not compare equal", e.name.c_str(), what.c_str(), k)); return false; }
        if(!same_future(*b, *s, h, &at, &x, &y)) { fail("future", fmt("%s: %s: restored into target %zu, output %zu is %llu, original gives %llu", e.name.c_str(), what.c_str(), k, at, (ull)x, (ull)y)); return false; }
    }
    if(layouts) { // several objects and other data in one stream, separators ' ', newline, two blanks
        const C seps[3][3] = {{' ', 0}, {'\n', 0}, {' ', ' ', 0}};
        for(auto& sp : seps) {
            S all; all << text << sp << 4711 << sp << text2 << sp << text << sp << 815 << sp << C('z');
            EP b1 = targets[0]->clone(), b2 = targets.back()->clone(), b3 = targets[0]->clone(); int n1 = -1, n2 = -1; C z = 0; ++g_execs;
            ctx("%s %s: three engines in one stream", e.name.c_str(), what.c_str());
            bool ok = IO<C>::r(*b1, all); ok = ok && (all >> n1) && n1 == 4711; ok = ok && IO<C>::r(*b2, all) && IO<C>::r(*b3, all); ok = ok && (all >> n2) && n2 == 815 && (all >> z) && z == C('z');
            if(!ok) { fail("stream", fmt("%s: %s: engine, 4711, engine, engine, 815, z in one %s stream do not all read back (got %d, %d)", e.name.c_str(), what.c_str(), IO<C>::nm(), n1, n2)); return false; }
            EP s = src.clone(), s2 = src2.clone(), s3 = src.clone();
            if(!same_future(*b1, *s, h) || !same_future(*b2, *s2, h) || !same_future(*b3, *s3, h)) { fail("stream-future", fmt("%s: %s: engines read from one stream differ from the originals", e.name.c_str(), what.c_str())); return false; }
        }
    }
    return true;
}
static void run(Entry& e) {
    RP r = e.ref(); bool big = e.phase > 1000; size_t h = std::min<size_t>(horizon(*r, 4000), big ? 60 : e.phase > 300 ? e.phase + 3 : 4000);
    std::vector<EP> starts; std::vector<std::string> nm;
    starts.push_back(e.make()); nm.push_back("default seed");
    for(int s : {1, 7}) { starts.push_back(e.make()->ctor_val(s)); nm.push_back(fmt("seed %d", s)); }
    if(e.tiny) for(int s = 10; s < 40; ++s) { starts.push_back(e.make()->ctor_val(s)); nm.push_back(fmt("seed %d", s)); }
    for(int k : {0, 1, 3, 9}) { if(e.phase > 10000 && k < 9) continue; Words w = wordset(k, 3 * e.phase + 9); ScriptSeq q(w); EP x = e.make()->ctor_seq(q);
        if(k < 2 && e.name.find("ibits<") == 0) continue; starts.push_back(std::move(x)); nm.push_back(fmt("words %d", k)); }
    std::vector<EP> targets; for(size_t p : {size_t(0), size_t(1), e.phase / 2 + 1, e.phase, e.phase + 1}) { EP t = e.make()->ctor_val(99); for(size_t i = 0; i < p; ++i) t->next(); targets.push_back(std::move(t)); }
    targets.push_back(e.make());
    for(size_t si = 0; si < starts.size(); ++si) {
        std::vector<size_t> pos = positions(e.phase, si == 0 || e.phase <= 64 ? 700 : 4, e.phase > 300 && si ? 1 : 2);
        if(e.phase > 10000) pos = {0, 1, e.phase - 1, e.phase, e.phase + 1};
        if(si == 0 && (e.phase < 100 || thorough())) for(size_t q = 0; q < 40; ++q) pos.push_back(pos.back() + 17 * q + 1);
        EP w = starts[si]->clone(), w2 = starts[si]->clone(); size_t at = 0; for(int i = 0; i < 3; ++i) w2->next();
        std::vector<EP> one_t; one_t.push_back(targets[0]->clone()); size_t n = 0;
        for(size_t p : pos) {
            while(at < p) { w->next(); ++at; } ++g_states; ++g_traces;
            bool full = e.phase <= 300 || n % 50 == 0; ++n;
            if(!full) { one_t[0] = targets[n % targets.size()]->clone(); }
            std::string what = fmt("%s, %zu draws", nm[si].c_str(), p);
            if(!one<char>(e, *w, *w2, full ? targets : one_t, what, h, full)) return;
            if(full && w->wide() && !one<wchar_t>(e, *w, *w2, one_t, what, h, true)) return;
        }
    }
    sample(fmt("%zu source histories restored into %zu targets", starts.size(), targets.size()));
}
MC_ENGINE_MAIN
