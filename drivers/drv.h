// Minimal bounded-replay harness: every section runs in a child process with a time limit.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <sstream>
#include <vector>
#include <deque>
#include <functional>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <time.h>
namespace drv {
struct Shared { long cases; long fails; };
static Shared *sh() { static Shared *s = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return s; }
inline bool thorough() { const char *t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }
inline uint64_t seed() { const char *t = getenv("VERIF_SEED"); return t ? strtoull(t, 0, 10) : 1; }
struct Rng { uint64_t s; Rng(uint64_t x = 0) : s(seed() * 0x9E3779B97F4A7C15ull + x * 0xD1B54A32D192ED03ull + 1) {} uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 2685821657736338717ull; } uint64_t below(uint64_t n) { return (next() >> 11) % n; } };
inline void kase() { __sync_fetch_and_add(&sh()->cases, 1); }
inline void fail(const std::string &m) { __sync_fetch_and_add(&sh()->fails, 1); printf("FAIL %s\n", m.c_str()); fflush(stdout); _exit(1); }
template <class A, class B> void eq(const A &a, const B &b, const std::string &what) { kase(); if (!(a == b)) { std::ostringstream o; o << what << ": got " << a << " expected " << b; fail(o.str()); } }
inline std::string show(const std::string &s) { std::string o; for (unsigned char c : s) { if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } else o += c; } return o.size() > 300 ? o.substr(0, 300) + "..." : o; }
inline void eqs(const std::string &a, const std::string &b, const std::string &what) { kase(); if (a != b) fail(what + ": got \"" + show(a) + "\" expected \"" + show(b) + "\""); }
inline void ok(bool c, const std::string &what) { kase(); if (!c) fail(what); }
inline std::string &scratch() { static std::string d; return d; }
// runs f in a child; a crash, a hang or a failed check is a failure
inline void section(const char *name, std::function<void()> f, int limit_s = 60) {
    fflush(stdout); sh();
    pid_t p = fork();
    if (p == 0) { setpgid(0, 0); f(); fflush(stdout); _exit(0); }
    int st = 0; time_t t0 = time(0); bool done = false; 
    long seen = -1; time_t start = t0;      // a hang: no case checked for limit_s seconds
    while (time(0) - t0 <= limit_s && time(0) - start <= limit_s * (thorough() ? 10 : 4)) { long n = __sync_fetch_and_add(&sh()->cases, 0); if (n != seen) { seen = n; t0 = time(0); } if (waitpid(p, &st, WNOHANG) == p) { done = true; break; } usleep(2000); }
    if (!done) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); printf("FAIL %s: did not finish within %d s (hang)\n", name, (int)(time(0) - start)); sh()->fails++; return; }
    if (WIFSIGNALED(st)) { printf("FAIL %s: killed by signal %d\n", name, WTERMSIG(st)); sh()->fails++; }
    else if (WEXITSTATUS(st)) { printf("FAIL section %s (exit %d)\n", name, WEXITSTATUS(st)); sh()->fails++; }
}
inline std::string mkscratch() { char b[] = "/tmp/vcdrvXXXXXX"; if (!mkdtemp(b)) { puts("FAIL mkdtemp"); exit(1); } scratch() = b; return b; }
inline void rmscratch() { if (scratch().size() > 10 && scratch().compare(0, 10, "/tmp/vcdrv") == 0) { std::string c = "rm -rf '" + scratch() + "'"; if (system(c.c_str())) {} } }
inline int finish() { rmscratch(); printf("CASES %ld FAILS %ld\n", sh()->cases, sh()->fails); fflush(stdout); return sh()->fails ? 1 : 0; }
inline std::string slurp(const std::string &p) { std::string s; FILE *f = fopen(p.c_str(), "rb"); if (!f) return "<missing>"; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
}
