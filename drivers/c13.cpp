// C13: files against the file system, with faults injected into the C library calls (asan+ubsan).
// LDFLAGS: -Wl,--wrap=fclose,--wrap=open,--wrap=fdopen,--wrap=close,--wrap=fflush,--wrap=fsync,--wrap=fwrite,--wrap=fstat64,--wrap=mkdir
#include "cap.h"
#include "include/learnlog.h"
#include "sinks/basic_file_sink.h"
#include "sinks/rolling_file_sink.h"
#include <map>
#include <set>
#include <dirent.h>
#include <cerrno>
using namespace learnlog::sinks;
static int fail_after[9]; static long calls[9]; enum { FCLOSE, OPEN, FDOPEN, CLOSE, FFLUSH, FSYNC, FWRITE, FSTAT, MKDIR };
static std::set<FILE *> live; static int dead_use; static int watching;
// fails the calls from number fail_after[k] on, for as many as fail_n[k] tells
static int fail_n[9];
static bool bad(int k) { calls[k]++; if (fail_n[k] > 0 && calls[k] > fail_after[k]) { fail_n[k]--; errno = EIO; return true; } return false; }
extern "C" {
int __real_fclose(FILE *); int __wrap_fclose(FILE *f) { if (watching) { if (!live.erase(f)) dead_use++; } bool b = watching && bad(FCLOSE); int r = __real_fclose(f); return b ? EOF : r; }
int __real_open(const char *, int, ...); int __wrap_open(const char *p, int fl, int m) { if (watching && bad(OPEN)) return -1; return __real_open(p, fl, m); }
FILE *__real_fdopen(int, const char *); FILE *__wrap_fdopen(int d, const char *m) { if (watching && bad(FDOPEN)) return 0; FILE *f = __real_fdopen(d, m); if (watching && f) live.insert(f); return f; }
int __real_close(int); int __wrap_close(int d) { if (watching) calls[CLOSE]++; return __real_close(d); }
int __real_fflush(FILE *); int __wrap_fflush(FILE *f) { if (watching && f && !live.count(f)) dead_use++; if (watching && bad(FFLUSH)) return EOF; return __real_fflush(f); }
int __real_fsync(int); int __wrap_fsync(int d) { if (watching && bad(FSYNC)) return -1; return __real_fsync(d); }
size_t __real_fwrite(const void *, size_t, size_t, FILE *); size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *f) { if (watching) { if (!live.count(f)) { dead_use++; return n; } if (bad(FWRITE)) return n ? __real_fwrite(p, s, n - 1, f) : 0; } return __real_fwrite(p, s, n, f); }
int __real_fstat64(int, struct stat64 *); int __wrap_fstat64(int d, struct stat64 *b) { if (watching && bad(FSTAT)) return -1; return __real_fstat64(d, b); }
int __real_mkdir(const char *, mode_t); int __wrap_mkdir(const char *p, mode_t m) { if (watching && bad(MKDIR)) return -1; return __real_mkdir(p, m); }
}
static void inject(int k, int after, int n) { fail_after[k] = after; fail_n[k] = n; }
static void start() { memset(calls, 0, sizeof calls); memset(fail_n, 0, sizeof fail_n); live.clear(); dead_use = 0; watching = 1; }
static int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static std::string newdir() { static int n = 0; std::string d = scratch() + "/p" + std::to_string(getpid()) + "_" + std::to_string(n++); __real_mkdir(d.c_str(), 0700); return d; }
static void put(const std::string &p, const std::string &t) { FILE *f = fopen(p.c_str(), "w"); __real_fwrite(t.data(), 1, t.size(), f); __real_fclose(f); }
static void buf(fmt_memory_buf &b, const std::string &t) { b.append(t.data(), t.data() + t.size()); }
static std::string text(Rng &r, size_t n) { std::string s; for (size_t i = 0; i < n; i++) s += (char)r.below(256); return s; }
template <class F> static bool throws(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }
namespace fb = learnlog::base::file_base; namespace os_ = learnlog::base::os;
int main() {
    mkscratch();
    section("missing directories", [] { std::string d = newdir(); if (chdir(d.c_str())) fail("chdir"); for (const char *p : {"a/b/c/f", "f", "./g/f", "x//y/f", "../q/f", "a/b/h", "r/s/../t/f"}) for (int ab = 0; ab < 2; ab++) for (int tr = 0; tr < 2; tr++) { std::string q = ab ? d + "/" + std::string("abs/") + p : p; FILE *f = 0; ok(!throws([&] { fb::open(&f, q, tr); }), "open " + q); ok(f != 0, "stream of " + q); fmt_memory_buf b; buf(b, "data"); fb::write(f, q, b); fb::close(&f, q); ok(f == 0, "closed"); ok(slurp(q).find("data") != std::string::npos, "data in " + q); ok(os_::dir_exist(q), "exists"); } ok(!os_::dir_exist(d + "/nothing"), "a missing path"); ok(!os_::create_dir(""), "the empty path"); ok(os_::create_dir(d + "/m/n/"), "trailing separator"); ok(os_::dir_exist(d + "/m/n"), "created"); put(d + "/file", "x"); ok(!os_::create_dir(d + "/file/below"), "below a file"); });
    section("append and truncate", [] { std::string d = newdir(), p = d + "/f"; Rng r(1); for (size_t n : {0, 1, 100, 70000}) { std::string old = text(r, n), nw = text(r, n / 2 + 1); put(p, old); FILE *f = 0; fb::open(&f, p); eq((size_t)fb::size(f, p), n, "size"); fmt_memory_buf b; buf(b, nw); fb::write(f, p, b); fb::flush(f, p); eqs(slurp(p), old + nw, "append keeps what was there"); put(p, "cut"); fb::write(f, p, b); fb::flush(f, p); eqs(slurp(p), "cut" + nw, "writes go to the end"); eq((size_t)fb::size(f, p), nw.size() + 3, "size"); fb::sync(f, p); fb::open(&f, p, true); eqs(slurp(p), "", "truncated"); fb::write(f, p, b); fb::close(&f, p); eqs(slurp(p), nw, "written"); fb::close(&f, p); } });
    section("a stream held before an open is closed first", [] { std::string d = newdir(); int n0 = fds(); start(); FILE *f = 0; for (int i = 0; i < 20; i++) fb::open(&f, d + "/" + std::to_string(i % 3), i % 2 == 0); eq(live.size(), (size_t)1, "open streams"); fb::close(&f, d); eq(live.size(), (size_t)0, "open streams"); watching = 0; eq(fds(), n0, "descriptors"); eq(dead_use, 0, "use of a closed stream"); });
    section("closing fails", [] { std::string d = newdir(); start(); FILE *f = 0; fb::open(&f, d + "/x"); FILE *was = f; inject(FCLOSE, 0, 1); ok(throws([&] { fb::close(&f, d); }), "reported"); ok(f == 0, "given up"); ok(!throws([&] { fb::close(&f, d); }), "closing again does nothing"); eq(dead_use, 0, "closed once"); eq(live.count(was), (size_t)0, "closed"); fb::open(&f, d + "/y"); inject(FCLOSE, (int)calls[FCLOSE], 1); ok(throws([&] { fb::open(&f, d + "/z"); }), "open reports that closing failed"); ok(f == 0, "no stream"); eq(dead_use, 0, "closed once"); });
    section("retries", [] { for (int tr = 0; tr < 2; tr++) for (int tries = 1; tries < 6; tries++) for (int n = 0; n <= tries + 1; n++) { std::string d = newdir(), p = d + "/f"; int n0 = fds(); start(); inject(OPEN, 0, n); FILE *f = 0; bool t = throws([&] { fb::open(&f, p, tr, tries, 1); }); watching = 0; eq(t, n >= tries, "gives up after " + std::to_string(tries) + " attempts, " + std::to_string(n) + " failing"); eq(f != 0, !t, "stream"); ok(calls[OPEN] <= tries + tr * tries, "attempts"); if (f) __real_fclose(f); eq(fds(), n0, "descriptors"); eq(live.size(), (size_t)!t, "streams left open"); }
        for (int tr = 0; tr < 2; tr++) for (int k = 0; k < 3; k++) { std::string d = newdir(), p = d + "/f"; put(p, "old"); int n0 = fds(); start(); inject(FDOPEN, k, 1); FILE *f = 0; bool t = throws([&] { fb::open(&f, p, tr, 3, 1); }); watching = 0; ok(!t && f, "one failing stream is retried"); if (f) __real_fclose(f); eq(fds(), n0, "a descriptor leaks when no stream can be made"); eq(live.size(), (size_t)1, "temporary streams are closed"); eqs(slurp(p), tr ? "" : "old", "content"); } 
        for (int tr = 0; tr < 2; tr++) for (int n = 0; n < 4; n++) for (int k = 0; k < 3; k++) { std::string d = newdir(), p = d + "/f"; put(p, "old"); start(); inject(OPEN, k, n); FILE *f = 0; bool t = throws([&] { fb::open(&f, p, tr, 5, 1); }); watching = 0; ok(!t && f, "a file that cannot be opened at first is tried again"); if (f) __real_fclose(f); eqs(slurp(p), tr ? "" : "old", "content after failing attempts"); }
        std::string d = newdir(); start(); FILE *f = 0; ok(throws([&] { fb::open(&f, d, false, 2, 1); }), "a directory is no file"); ok(throws([&] { fb::open(&f, d, false, 0, 1); }), "no attempts"); });
    section("opening after directories failed", [] { std::string d = newdir(), p = d + "/q/w/f"; start(); inject(MKDIR, 0, 1); FILE *f = 0; fb::open(&f, p, true, 5, 1); watching = 0; ok(f != 0, "directory created by a later attempt"); fb::close(&f, p); });
    section("write, flush, sync and size report failures", [] { std::string d = newdir(), p = d + "/f"; start(); FILE *f = 0; fb::open(&f, p); fmt_memory_buf b; buf(b, "some text"); for (int q = 0; q < 3; q++) { inject(FWRITE, (int)calls[FWRITE], 1); ok(throws([&] { fb::write(f, p, b); }), "short write"); ok(!throws([&] { fb::write(f, p, b); }), "good write"); inject(FFLUSH, (int)calls[FFLUSH], 1); ok(throws([&] { fb::flush(f, p); }), "flush"); ok(!throws([&] { fb::flush(f, p); }), "good flush"); inject(FSYNC, (int)calls[FSYNC], 1); ok(throws([&] { fb::sync(f, p); }), "sync"); ok(!throws([&] { fb::sync(f, p); }), "good sync"); inject(FSTAT, (int)calls[FSTAT], 1); ok(throws([&] { fb::size(f, p); }), "size"); ok(!throws([&] { fb::size(f, p); }), "good size"); } ok(throws([&] { fb::size(0, p); }), "size of nothing"); fmt_memory_buf e; ok(!throws([&] { fb::write(f, p, e); }), "nothing to write"); fb::close(&f, p); });
    section("sinks close their file once", [] { for (int k = 0; k < 4; k++) { std::string d = newdir(); Err e; int n0 = fds(); start(); { sinks::basic_file_sink_mt s(d + "/a/f", true); sinks::rolling_file_sink_st r(d + "/b/r.log", 5, 3); base::log_msg m(level::info, "text", "n"); s.log(m); r.log(m); r.log(m); eq(live.size(), (size_t)2, "open streams"); if (k & 1) inject(FFLUSH, (int)calls[FFLUSH], 2); if (k & 2) inject(FCLOSE, (int)calls[FCLOSE], 2); } watching = 0; eq(live.size(), (size_t)0, "streams left open"); eq(dead_use, 0, "closed twice"); eq(fds(), n0, "descriptors"); eq(e.reports(), (k & 1 ? 2 : 0) + (k & 2 ? 2 : 0), "failures reported"); } });
    section("file factories keep what is there", [] { for (int i = 0; i < 4; i++) { std::string d = newdir(), p = d + "/f"; put(p, "old\n"); { logger_shr_ptr l; std::string n = "fileish" + std::to_string(i); if (i == 0) l = basic_file_logger_mt(n, p); if (i == 1) l = basic_file_logger_st(n, p); if (i == 2) l = basic_file_logger_mt(n, p, true); if (i == 3) l = basic_file_logger_st(n, p, true); l->set_pattern("%v"); l->set_log_level(level::trace); l->info(std::string("new")); l->flush(); eqs(slurp(p), i < 2 ? "old\nnew\n" : "new\n", "file of a factory's logger"); learnlog::remove_logger(n); } } });
    section("file sink modes", [] { std::string d = newdir(), p = d + "/f"; put(p, "old"); { sinks::basic_file_sink_mt s(p); s.set_pattern("%v"); s.log(base::log_msg(level::info, "x", "n")); eqs(s.filename(), p, "name"); } eqs(slurp(p), "oldx\n", "appended"); { sinks::basic_file_sink_mt s(p, true); s.set_pattern("%v"); s.log(base::log_msg(level::info, "y", "n")); s.flush(); eqs(slurp(p), "y\n", "flushed"); } ok(throws([&] { sinks::basic_file_sink_st s(d); }), "a directory is no file"); });
    return finish();
}
