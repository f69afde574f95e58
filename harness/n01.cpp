// N01: random_device under every sequence of system answers.  open, read and close of the library's object file are redirected
// at link time (--wrap) to a scripted system; answers are choice points of the explorer.
#include "mc.hpp"
#include <boost/random/random_device.hpp>
#include <boost/system/system_error.hpp>
#include <cerrno>
#include <memory>
#include <sys/stat.h>
#include <dirent.h>
using namespace mc;
extern "C" int __real_open(const char*, int, ...); extern "C" ssize_t __real_read(int, void*, size_t); extern "C" int __real_close(int);
struct Byte { unsigned char v; int fd; uint64_t at; };
struct Sys { bool on = false; Chooser* ch = nullptr; std::map<int, int> open; std::vector<int> freed; std::map<int, int> closes; int opens = 0, nextfd = 0; int badclose = 0, badread = 0; uint64_t served = 0, reads = 0; std::vector<unsigned char> call; std::string log; int lasterr = 0; std::string path; bool openok = false; bool eof_forever = false; size_t maxreads = 64; };
static Sys S;
struct Runaway : std::runtime_error { Runaway() : std::runtime_error("the call goes on reading for ever") {} };
static const int OERR[] = {ENOENT, EACCES, EMFILE, EINTR}, RERR[] = {EINTR, EIO, EAGAIN};
static int sys_open(const char* p) { ++g_trans; S.path = p; ++S.opens; uint32_t k = S.ch->pick(2 + 4); if(k < 2) { int fd = k == 0 ? S.nextfd : 700 + S.nextfd; ++S.nextfd; S.open[fd] = 1; S.log += fmt(" open=%d", fd); S.openok = true; return fd; } S.lasterr = errno = OERR[k - 2]; S.log += fmt(" open!%d", errno); S.openok = false; return -1; }
extern "C" int __wrap_open(const char* p, int fl, ...) { if(!S.on) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return __real_open(p, fl, m); } return sys_open(p); }
extern "C" int __wrap_open64(const char* p, int fl, ...) { if(!S.on) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return __real_open(p, fl, m); } return sys_open(p); }
extern "C" ssize_t __wrap_read(int fd, void* b, size_t n) {
    if(!S.on) return __real_read(fd, b, n);
    ++g_trans; ++S.reads; if(!S.open.count(fd)) { ++S.badread; S.log += fmt(" read(bad fd %d)", fd); errno = EBADF; return -1; }
    if(S.reads > S.maxreads) throw Runaway();
    // every length the system may deliver (long requests: 1, 2, 3, 4, all but one, all), end of file, each error
    std::vector<size_t> len; for(size_t k = 1; k <= n && k <= 4; ++k) len.push_back(k); if(n > 5) len.push_back(n - 1); if(n > 4) len.push_back(n);
    uint32_t k = S.eof_forever ? (uint32_t)len.size() : n == 0 ? 0 : S.ch->pick(len.size() + 1 + 3);
    if(n == 0) { S.log += " read(0)"; return 0; }
    if(k < len.size()) { for(size_t i = 0; i < len[k]; ++i) { unsigned char v = (unsigned char)(++S.served * 37 + 11); static_cast<unsigned char*>(b)[i] = v; S.call.push_back(v); } S.log += fmt(" read(%zu)=%zu", n, len[k]); return len[k]; }
    k -= len.size(); if(k == 0) { S.log += fmt(" read(%zu)=eof", n); return 0; }
    S.lasterr = errno = RERR[k - 1]; S.log += fmt(" read(%zu)!%d", n, errno); return -1;
}
extern "C" int __wrap_close(int fd) { if(!S.on) return __real_close(fd); ++g_trans; if(!S.open.count(fd)) { ++S.badclose; S.log += fmt(" close(bad fd %d)", fd); errno = EBADF; return -1; } S.open.erase(fd); ++S.closes[fd]; if(S.ch->pick(2)) { errno = EIO; S.log += fmt(" close(%d)!", fd); return -1; } S.log += fmt(" close(%d)", fd); return 0; }
struct On { On(Chooser& c) { S = Sys(); S.ch = &c; S.on = true; } ~On() { S.on = false; } };
// one value: its four bytes must be four different bytes delivered during this call
static bool from_call(unsigned int v) { std::vector<unsigned char> have = S.call; for(int i = 0; i < 4; ++i) { unsigned char b = (v >> (8 * i)) & 255; auto it = std::find(have.begin(), have.end(), b); if(it == have.end()) return false; have.erase(it); } return true; }
struct Bad { std::string key, what; };
static void bad(const char* k, const std::string& w) { throw Bad{k, w}; }
typedef boost::random::random_device RD;
static std::unique_ptr<RD> make(const char* token) {
    try { std::unique_ptr<RD> d(token ? new RD(std::string(token)) : new RD()); if(!S.openok) bad("open", "constructed although the device could not be opened"); if(token && S.path != token) bad("token", "opened another path than the token: " + S.path); if(!token && S.path != "/dev/urandom" && S.path != "/dev/random") bad("token", "default device is " + S.path); return d; }
    catch(Bad&) { throw; } catch(Limit&) { throw; }
    catch(boost::system::system_error& e) { if(S.openok) bad("open", "constructor throws although the device opened"); if(e.code().value() != S.lasterr) bad("open-error", fmt("opening fails with error %d but the exception names %d", S.lasterr, e.code().value())); if(std::string(e.what()).find(token ? token : "/dev/") == std::string::npos) bad("open-error", std::string("the exception does not name the device: ") + e.what()); }
    catch(std::exception& e) { if(S.openok) bad("open", "constructor throws although the device opened"); bad("open-error", std::string("opening failure is reported by another exception: ") + e.what()); }
    if(S.badclose || S.reads) bad("open", "descriptor used after opening failed"); return nullptr; }
// draw; false if it threw
static bool draw(RD& d, unsigned& out) { S.call.clear(); S.reads = 0; S.log += " |"; try { out = d(); } catch(Limit&) { throw; } catch(Runaway&) { throw; } catch(std::exception& e) { S.log += " throws"; if(S.call.size() >= 4) bad("throws", "throws although four bytes were delivered"); return false; } if(!from_call(out)) bad("bytes", fmt("value %08x is not made of bytes delivered during the call", out)); return true; }
static void closed(size_t n) { if(S.badread) bad("fd", "read from a descriptor that is not open"); if(S.badclose) bad("close", "a descriptor that is not open is closed"); if(!S.open.empty()) bad("close", "a descriptor is left open after destruction"); size_t k = 0; for(auto& c : S.closes) k += c.second; if(k != n) bad("close", fmt("%zu closes of %zu descriptors", k, n)); }
template<class F> static void sweep(const char* nm, size_t depth, F f) { std::string longest; explore(depth, [&](Chooser& c) { if(too_many()) return; { On on(c); { std::string h; for(uint32_t x : c.c) h += fmt(" %u", x); ctx("%s, choices%s and then 0", nm, h.c_str()); } try { f(); ++g_distinct; ++g_traces; if(S.log.size() > longest.size()) longest = S.log; } catch(Limit&) { count("cut at the depth bound"); } catch(Runaway& e) { S.on = false; fail("endless", S.log + ": " + e.what()); } catch(Bad& b) { S.on = false; fail(b.key, "system answers" + S.log + ": " + b.what); } S.on = false; } }); sample(longest); }
static void faults() {
    const int N = thorough() ? 4 : 3;
    for(const char* tok : {(const char*)nullptr, "/x/some token", ""}) { std::string nm = std::string("draws from ") + (tok ? tok : "default");
        add(nm, [=] { sweep(nm.c_str(), 40, [&] { { std::unique_ptr<RD> d = make(tok); if(!d) { closed(0); return; } if(d->entropy() < 0 || d->entropy() > 32) bad("entropy", "entropy outside [0, 32]"); unsigned v; int n = tok ? 2 : N - 1; for(int i = 0; i < n; ++i) draw(*d, v); } closed(1); }); }); }
    for(int n = 0; n <= N; ++n) add(fmt("generate %d", n), [=] { sweep("generate", 40, [&] { { std::unique_ptr<RD> d = make(nullptr); if(!d) { closed(0); return; } std::vector<unsigned> v(n + 2, 0xdeadbeef); S.reads = 0; bool threw = false; S.log += " |"; try { d->generate(v.begin() + 1, v.begin() + 1 + n); } catch(Limit&) { throw; } catch(Runaway&) { throw; } catch(std::exception&) { threw = true; S.log += " throws"; } if(v[0] != 0xdeadbeef || v[n + 1] != 0xdeadbeef) bad("generate", "writes outside the range"); if(!threw) { std::vector<unsigned char> all = S.call; for(int i = 0; i < n; ++i) { if(!from_call(v[i + 1])) bad("generate", fmt("element %d is not made of delivered bytes", i)); for(int k = 0; k < 4; ++k) { auto it = std::find(S.call.begin(), S.call.end(), (unsigned char)(v[i + 1] >> (8 * k))); S.call.erase(it); } } if(n == 0 && !all.empty()) bad("generate", "an empty range reads"); } else if(n == 0) bad("generate", "an empty range throws"); } closed(1); }); });
    add("generate 64-bit elements", [=] { sweep("generate64", 40, [&] { { std::unique_ptr<RD> d = make(nullptr); if(!d) { closed(0); return; } uint64_t v[2] = {~0ULL, ~0ULL}; S.log += " |"; bool t = false; try { d->generate(v, v + 2); } catch(Limit&) { throw; } catch(Runaway&) { throw; } catch(std::exception&) { t = true; } if(!t && (v[0] >> 32 || v[1] >> 32 || !from_call(v[0]) || !from_call(v[1]))) bad("generate", "elements are not 32-bit values made of delivered bytes"); } closed(1); }); });
    // two devices used alternately
    add("two devices", [=] { sweep("two", 40, [&] { { std::unique_ptr<RD> a = make("/x/a"), b; bool oa = !!a; b = make("/x/b"); int n = oa + !!b; unsigned v; if(a) draw(*a, v); if(b) draw(*b, v); a.reset(); size_t left = S.open.size(); if(left != (b ? 1u : 0u)) bad("close", "destroying one device does not close exactly its descriptor"); b.reset(); closed(n); } }); });
    add("end of file for ever", [=] { sweep("eof", 40, [&] { { std::unique_ptr<RD> d = make(nullptr); if(!d) { closed(0); return; } unsigned v; S.eof_forever = true; if(draw(*d, v)) bad("eof", "returns a value at end of file"); if(draw(*d, v)) bad("eof", "returns a value at end of file"); S.eof_forever = false; draw(*d, v); } closed(1); }); });
    add("constants", [] { if((RD::min)() != 0 || (RD::max)() != ~0u) fail("range", "min or max"); ++g_execs; ++g_distinct; });
    // destruction never ends the program, whatever close answers (in a child of its own)
    add("destroy", [] { for(int r = 0; r < 2; ++r) { fflush(nullptr); pid_t p = fork(); if(p == 0) { Chooser c; c.c = {0, (uint32_t)r}; c.n = {6, 2}; On on(c); try { RD d; } catch(...) { _exit(1); } _exit(0); } int w = 0; waitpid(p, &w, 0); ++g_execs; ++g_distinct; if(!(WIFEXITED(w) && WEXITSTATUS(w) == 0)) fail("destroy", r ? "destroying a device whose descriptor fails to close ends the program" : "destroying a device ends the program"); } });
}
// the fault model against the real system: real files of every short length, missing and unsuitable ones
static void real() { add("real files", [] {
    char dir[] = "/tmp/n01.XXXXXX"; if(!mkdtemp(dir)) { fail("setup", "mkdtemp"); return; } std::string base(dir);
    auto fds = [] { size_t n = 0; DIR* d = opendir("/proc/self/fd"); if(!d) return n; while(readdir(d)) ++n; closedir(d); return n; }; size_t before = fds();
    for(int len = 0; len <= 13; ++len) { std::string p = base + "/f"; FILE* f = fopen(p.c_str(), "wb"); for(int i = 0; i < len; ++i) fputc(17 * i + 3, f); fclose(f); ++g_execs; ++g_distinct; ++g_traces; { RD d(p); std::vector<unsigned> got; try { for(int i = 0; i < 6; ++i) got.push_back(d()); fail("real", "reads past the end of a file"); } catch(std::exception&) {} if((int)got.size() != len / 4) fail("real", fmt("file of %d bytes gives %zu values", len, got.size())); for(size_t k = 0; k < got.size(); ++k) { std::multiset<int> a, b; for(int i = 0; i < 4; ++i) { a.insert(got[k] >> (8 * i) & 255); b.insert((17 * (4 * k + i) + 3) & 255); } if(a != b) fail("real", "value is not made of the file's bytes"); } } unlink(p.c_str()); }
    try { RD d(base + "/missing"); fail("real", "opens a missing file"); } catch(boost::system::system_error& e) { if(e.code().value() != ENOENT) fail("real", "wrong error for a missing file"); }
    { bool threw = false; try { RD d(base); d(); } catch(std::exception&) { threw = true; } if(!threw) fail("real", "reads a value from a directory"); }
    // a fifo delivering pieces
    for(int m = 0; m < 8; ++m) { std::string p = base + "/p"; if(mkfifo(p.c_str(), 0600)) { fail("setup", "mkfifo"); break; } fflush(nullptr); pid_t w = fork(); if(w == 0) { int fd = __real_open(p.c_str(), O_WRONLY); for(int i = 0; i < 4; ++i) { unsigned char c = 90 + i; if(write(fd, &c, 1) != 1) _exit(1); if(m >> i & 1) usleep(3000); } __real_close(fd); _exit(0); } { RD d(p); try { unsigned v = d(); std::multiset<int> a, b{90, 91, 92, 93}; for(int i = 0; i < 4; ++i) a.insert(v >> (8 * i) & 255); if(a != b) fail("real", "fifo bytes"); } catch(std::exception& e) { fail("real", std::string("fifo: ") + e.what()); } bool threw = false; try { d(); } catch(std::exception&) { threw = true; } if(!threw) fail("real", "value after the end of a fifo"); } int st; waitpid(w, &st, 0); unlink(p.c_str()); ++g_execs; ++g_distinct; ++g_traces; }
    if(fds() != before) fail("real", "descriptors leak"); rmdir(base.c_str()); }); }
MC_MAIN({ faults(); real(); })
