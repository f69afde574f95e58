// Model-checking framework shared by every harness: named cases run in forked children
// (isolation, parallelism, crash and hang detection), counters, failures, replay, and the
// exhaustive choice-point explorer.
#pragma once
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace mc {

struct Shared { char ctx[4096]; };
inline Shared*& shared() { static Shared* s = nullptr; return s; }
// describe what is being done now; shown if the case crashes or hangs
inline void ctx(const char* fmt, ...) {
    if(!shared()) return;
    va_list ap; va_start(ap, fmt); vsnprintf(shared()->ctx, sizeof shared()->ctx, fmt, ap); va_end(ap);
}
inline std::string fmt(const char* f, ...) {
    char buf[4096]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap); return buf;
}

struct Stats {
    std::map<std::string, double> n;          // counters
    std::vector<std::pair<std::string,std::string>> fails;
    std::vector<std::string> samples;
    std::set<std::string> keys;
    uint64_t nfail = 0;
};
inline Stats& st() { static Stats s; return s; }
inline uint64_t g_states = 0, g_trans = 0, g_execs = 0, g_traces = 0, g_distinct = 0;
inline bool g_thorough = false;
inline std::string g_case;
inline bool thorough() { return g_thorough; }
inline void count(const std::string& k, double v = 1) { st().n[k] += v; }
inline void fail(const std::string& key, const std::string& detail) {
    st().nfail++;
    if(st().keys.size() < 12 && st().keys.insert(key).second) st().fails.push_back({key, detail});
}
inline bool too_many() { return st().nfail > 2000; }
inline void sample(const std::string& s) { if(st().samples.size() < 2) st().samples.push_back(s); }

struct Case { std::string name; std::function<void()> fn; int cpu; };
inline std::vector<Case>& cases() { static std::vector<Case> c; return c; }
inline void add(const std::string& name, std::function<void()> fn, int cpu_limit = 300) { cases().push_back({name, fn, cpu_limit}); }

inline std::string esc(const std::string& s) {
    std::string o; for(unsigned char c : s) { if(c=='"'||c=='\\') { o+='\\'; o+=c; } else if(c<32||c>126) { char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o;
}
inline void child_report(int fd) {
    std::string o;
    auto put = [&](const char* k, uint64_t v){ if(v) st().n[k] += double(v); };
    put("states", g_states); put("transitions", g_trans); put("executions", g_execs); put("traces", g_traces); put("distinct", g_distinct);
    for(auto& p : st().n) { char b[64]; snprintf(b, 64, "%.17g", p.second); o += "N\t" + p.first + "\t" + b + "\n"; }
    auto clean = [](std::string s){ for(auto& c : s) if(c=='\n'||c=='\t'||c=='\0') c=' '; return s; };
    for(auto& f : st().fails) o += "F\t" + clean(f.first) + "\t" + clean(f.second) + "\n";
    for(auto& s : st().samples) o += "S\t" + clean(s) + "\n";
    o += "E\n";
    size_t p = 0; while(p < o.size()) { ssize_t k = write(fd, o.data()+p, o.size()-p); if(k <= 0) break; p += k; }
}
inline void on_term(int) { _exit(97); }

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
struct Running { int idx; pid_t pid; int fd; Shared* sh; std::string buf; bool retry; double until; };

inline int run(int argc, char** argv) {
    std::string out = "-", only; int jobs = 8; bool list = false;
    if(const char* t = getenv("VERIF_TIER")) g_thorough = !strcmp(t, "thorough");
    for(int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if(a == "--out") out = argv[++i];
        else if(a == "--only") only = argv[++i];
        else if(a == "--jobs") jobs = atoi(argv[++i]);
        else if(a == "--tier") g_thorough = !strcmp(argv[++i], "thorough");
        else if(a == "--list") list = true;
    }
    auto& cs = cases();
    if(list) { for(auto& c : cs) puts(c.name.c_str()); return 0; }
    std::vector<int> todo; for(size_t i = 0; i < cs.size(); ++i) if(only.empty() || cs[i].name == only) todo.push_back(i);
    std::reverse(todo.begin(), todo.end());
    std::vector<Running> act; std::vector<int> again;
    std::map<std::string,double> tot; std::vector<std::string> fl, sm; uint64_t done = 0; std::vector<std::string> errs;
    auto start = [&](int idx, bool retry){
        Running r; r.idx = idx; r.retry = retry;
        r.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
        r.sh->ctx[0] = 0;
        int p[2]; if(pipe(p)) { perror("pipe"); exit(2); }
        // no quick case needs more than 12 s of CPU time
        int lim = g_thorough ? 3 * cs[idx].cpu : std::min(cs[idx].cpu, 45); r.until = now() + 4.0 * lim; if(retry) lim *= 3;
        fflush(nullptr);
        r.pid = fork();
        if(r.pid == 0) {
            close(p[0]); shared() = r.sh; g_case = cs[idx].name;
            rlimit rl{(rlim_t)lim, (rlim_t)lim + 5}; setrlimit(RLIMIT_CPU, &rl);
            rlimit rc{0,0}; setrlimit(RLIMIT_CORE, &rc);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
            rlimit ra{(rlim_t)6 << 30, (rlim_t)6 << 30}; setrlimit(RLIMIT_AS, &ra);
#endif
            int dn = open("/dev/null", O_WRONLY); if(dn >= 0 && !getenv("MC_STDERR")) { dup2(dn, 1); dup2(dn, 2); }
            try { cs[idx].fn(); }
            catch(std::exception& e) { fail("uncaught-exception", std::string("unexpected exception: ") + e.what() + " in " + r.sh->ctx); }
            child_report(p[1]); _exit(0);
        }
        close(p[1]); r.fd = p[0]; act.push_back(r);
    };
    // A case that hangs is given a second, longer run before it counts.  Once there is a failure there is no need to
    // wait for cases that hang, and when many cases hang the first second run decides.
    std::string known = std::string("\n") + (getenv("MC_KNOWN") ? getenv("MC_KNOWN") : "") + "\n";
    double t0 = now(); bool stopped = false, hang = false, real = false;
    auto finish = [&](Running& r){
        int ws = 0; rusage ru; wait4(r.pid, &ws, 0, &ru); close(r.fd);
        if(getenv("MC_TIMES")) fprintf(stderr, "%8.2fs %s%s\n", ru.ru_utime.tv_sec + ru.ru_utime.tv_usec / 1e6, cs[r.idx].name.c_str(), r.retry ? " (retry)" : "");
        const std::string nm = cs[r.idx].name; bool ended = false;
        std::istringstream is(r.buf); std::string ln; std::vector<std::string> f2;
        std::map<std::string,double> n2;
        while(std::getline(is, ln)) {
            if(ln == "E") ended = true;
            else if(ln[0] == 'N') { auto a = ln.find('\t', 2); n2[ln.substr(2, a-2)] += atof(ln.c_str()+a+1); }
            else if(ln[0] == 'F') { auto a = ln.find('\t', 2); f2.push_back("{\"case\":\"" + esc(nm) + "\",\"key\":\"" + esc(nm + "/" + ln.substr(2,a-2)) + "\",\"detail\":\"" + esc(ln.substr(a+1)) + "\"}"); if(known.find("\n" + nm + "/" + ln.substr(2,a-2) + "\n") == std::string::npos) real = true; }
            else if(ln[0] == 'S') { if(sm.size() < 400) sm.push_back("\"" + esc(nm + ": " + ln.substr(2)) + "\""); }
        }
        if(!ended) {
            bool to = WIFSIGNALED(ws) && (WTERMSIG(ws) == SIGXCPU || WTERMSIG(ws) == SIGKILL);
            if(to && stopped) { munmap(r.sh, sizeof(Shared)); return; }
            if(to && !r.retry) { again.push_back(r.idx); munmap(r.sh, sizeof(Shared)); return; }
            std::string why = to ? "hang" : "crash";
            if(to) hang = true;
            std::string d = to ? "no termination within the CPU limit" : (WIFSIGNALED(ws) ? "killed by signal " + std::to_string(WTERMSIG(ws)) : "exit status " + std::to_string(WEXITSTATUS(ws)));
            if(known.find("\n" + nm + "/" + why + "\n") == std::string::npos) real = true;
            f2.push_back("{\"case\":\"" + esc(nm) + "\",\"key\":\"" + esc(nm + "/" + why) + "\",\"detail\":\"" + esc(d + " while: " + r.sh->ctx) + "\"}");
        }
        for(auto& p : n2) tot[p.first] += p.second;
        for(auto& f : f2) fl.push_back(f);
        ++done; munmap(r.sh, sizeof(Shared));
    };
    auto pump = [&](int maxjobs, std::vector<int>& q, bool retry){
        while(!q.empty() || !act.empty()) {
            if(!retry && again.size() >= 8) { if(!real) { if(act.empty()) return; } else stopped = true; }
            if(real && (hang || (!again.empty() && now() - t0 > 240))) stopped = true;
            if(stopped) { q.clear(); for(auto& r : act) kill(r.pid, SIGKILL); }
            for(auto& r : act) if(now() > r.until) kill(r.pid, SIGKILL);
            while(!(!retry && again.size() >= 8) && !q.empty() && (int)act.size() < maxjobs) { int i = q.back(); q.pop_back(); start(i, retry); }
            std::vector<pollfd> pf; for(auto& r : act) pf.push_back({r.fd, POLLIN, 0});
            poll(pf.data(), pf.size(), 1000);
            for(size_t i = act.size(); i-- > 0;) if(pf[i].revents) {
                char b[65536]; ssize_t k = read(act[i].fd, b, sizeof b);
                if(k > 0) act[i].buf.append(b, k);
                else { Running r = act[i]; act.erase(act.begin()+i); finish(r); }
            }
        }
    };
    pump(jobs, todo, false);
    if(!real && !again.empty()) {
        std::vector<int> first(1, again.back()); again.pop_back(); pump(1, first, true);   // does the hang persist?
        if(!hang) { again.insert(again.end(), todo.begin(), todo.end()); std::sort(again.begin(), again.end()); pump(jobs, again, true); }
    }
    std::string o = "{\"cases\":" + std::to_string(done) + ",\"counters\":{"; bool first = true;
    for(auto& p : tot) { char b[64]; snprintf(b, 64, "%.17g", p.second); o += (first?"\"":",\"") + esc(p.first) + "\":" + b; first = false; }
    o += "},\"failures\":["; for(size_t i = 0; i < fl.size(); ++i) o += (i?",\n":"\n") + fl[i];
    o += "],\"samples\":["; size_t step = sm.size() > 40 ? sm.size()/40 : 1; first = true;
    for(size_t i = 0; i < sm.size(); i += step) { o += (first?"\n":",\n") + sm[i]; first = false; }
    o += "]}\n";
    if(out == "-") fputs(o.c_str(), stdout); else { FILE* f = fopen(out.c_str(), "w"); if(!f) { perror(out.c_str()); return 2; } fputs(o.c_str(), f); fclose(f); }
    return 0;
}

// ---------------------------------------------------------------- choice-point explorer
struct Limit {};   // thrown by pick() when an execution needs more choices than the bound allows
struct Chooser {
    std::vector<uint32_t> c, n; size_t pos = 0, maxdepth = 64; bool limited = false;
    uint32_t pick(uint32_t k) {
        if(pos == c.size()) {
            if(pos >= maxdepth) { limited = true; throw Limit(); }
            c.push_back(0); n.push_back(k);
        } else if(n[pos] != k) { fail("nondeterminism", "replayed prefix diverged"); child_report(2); _exit(98); }
        return c[pos++];
    }
    void begin() { pos = 0; limited = false; }
    bool advance() {   // odometer step; false when every execution has been enumerated
        c.resize(pos); n.resize(pos);
        while(!c.empty() && c.back() + 1 >= n.back()) { c.pop_back(); n.pop_back(); }
        if(c.empty()) return false;
        ++c.back(); return true;
    }
    std::string str() const { std::string s; for(size_t i = 0; i < pos; ++i) s += (i?",":"") + std::to_string(c[i]); return "[" + s + "]"; }
};
// Run f(chooser) for every choice sequence; done(chooser, completed) after each execution.
template<class F> inline void explore(size_t maxdepth, F f) {
    Chooser ch; ch.maxdepth = maxdepth;
    do { ch.begin(); ++g_execs; f(ch); } while(ch.advance());
}
} // namespace mc
#define MC_MAIN(body) int main(int argc, char** argv) { for(int i=1;i<argc;++i) if(!strcmp(argv[i],"--tier")&&i+1<argc) mc::g_thorough=!strcmp(argv[i+1],"thorough"); if(const char*t=getenv("VERIF_TIER")) if(!strcmp(t,"thorough")) mc::g_thorough=true; body; return mc::run(argc, argv); }
