// C15: the bytes of the formatter, once, to the sink's own stream; colour codes around the marked range only (asan+ubsan).
#include "cap.h"
#include "pat.h"
#include "sinks/ostream_sink.h"
#include "sinks/basic_file_sink.h"
#include "sinks/std_sinks.h"
#include "sinks/ansicolor_sink.h"
#include "sinks/null_sink.h"
#include <termios.h>
#include <poll.h>
#include <stdlib.h>
#include <unistd.h>
// a formatter that writes what it is told and marks what it is told
struct Fix : formatter { std::string t; size_t a, b; int *n; bool fail; Fix(const std::string &x, size_t s, size_t e, int *k, bool f = false) : t(x), a(s), b(e), n(k), fail(f) {}
    void format(const base::log_msg &m, fmt_memory_buf &d) override { ++*n; if (b > a) { m.color_index_start = a; m.color_index_end = b; } d.append(t.data(), t.data() + t.size()); if (fail) throw std::runtime_error("fmt"); }
    formatter_uni_ptr clone() const override { return formatter_uni_ptr(new Fix(t, a, b, n, fail)); } };
static std::string rnd_text(Rng &r, size_t n) { std::string s; for (size_t i = 0; i < n; i++) s += (char)r.below(256); return s; }
static const size_t LENS[] = {0, 1, 2, 17, 249, 250, 251, 500, 4096, 70000};
static const char *COL[] = {"\033[37m", "\033[36m", "\033[32m", "\033[33m\033[1m", "\033[31m\033[1m", "\033[1m\033[41m", "\033[m"};
template <class S> static void feed(S &s, const std::string &t, size_t a, size_t b, int lv, int *n, bool fail = false) { s.set_formatter(formatter_uni_ptr(new Fix(t, a, b, n, fail))); base::log_msg m(source_loc{}, (level::level_enum)lv, "x", "n"); m.color_index_start = 3; m.color_index_end = 5; s.log(m); }
struct File { FILE *f; File() : f(tmpfile()) {} ~File() { if (f) fclose(f); } std::string all() { std::string s; long p = ftell(f); rewind(f); char b[4096]; size_t k; while ((k = fread(b, 1, 4096, f)) > 0) s.append(b, k); fseek(f, p, SEEK_SET); return s; } };
// a pseudo terminal; false when there is none here
static bool pty(int &m, FILE *&f) { m = posix_openpt(O_RDWR | O_NOCTTY); if (m < 0 || grantpt(m) || unlockpt(m)) return false; char *nm = ptsname(m); if (!nm) return false; int s = open(nm, O_RDWR | O_NOCTTY); if (s < 0) return false; struct termios t; tcgetattr(s, &t); cfmakeraw(&t); tcsetattr(s, TCSANOW, &t); f = fdopen(s, "w"); return f != 0; }
static std::string get(int m, size_t n) { std::string s; char b[4096]; for (;;) { struct pollfd p = {m, POLLIN, 0}; if (poll(&p, 1, s.size() < n ? 2000 : 5) <= 0) break; ssize_t k = read(m, b, sizeof b); if (k <= 0) break; s.append(b, k); } return s; }
template <class S> static void plain(const char *w) { Rng r(3); for (size_t n : LENS) for (int lv = 0; lv < 7; lv++) { File o, e; fflush(stdout); S s(o.f); S s2(e.f); std::string t = rnd_text(r, n); int k = 0; feed(s, t, n / 3, n / 2, lv, &k); s.flush(); eqs(o.all(), t, std::string(w) + ": bytes"); eqs(e.all(), "", std::string(w) + ": another stream"); eq(k, 1, std::string(w) + ": formatted once"); feed(s2, t, 0, 0, lv, &k); feed(s, "tail", 0, 2, lv, &k); s.flush(); s2.flush(); eqs(o.all(), t + "tail", std::string(w) + ": two messages"); eqs(e.all(), t, std::string(w) + ": other"); int th = 0; try { feed(s, "partial", 0, 2, lv, &k, true); } catch (const std::runtime_error &) { th = 1; } eq(th, 1, std::string(w) + ": failing formatter"); feed(s, "after", 0, 0, lv, &k); s.flush(); eqs(o.all(), t + "tailafter", std::string(w) + ": only whole messages"); } }
template <class S> static void shortw(const char *w, bool unb) { FILE *f = fopen("/dev/full", "w"); if (!f) return; if (unb) setvbuf(f, 0, _IONBF, 0); S s(f); int k = 0, thrown = 0; for (size_t n : {(size_t)1, (size_t)100, (size_t)70000}) { std::string t(n, 'a'); try { feed(s, t, 0, 1, 2, &k); } catch (const std::exception &) { thrown++; } } eq(thrown, 3, std::string(w) + ": short writes reported"); 
    bool fine = true; try { feed(s, "", 0, 0, 2, &k); } catch (const std::exception &) { fine = false; } ok(fine, std::string(w) + ": nothing to write is no error"); fclose(f); }
int main() {
    mkscratch();
    section("standard stream sink", [] { plain<sinks::std_sink<base::static_mutex>>("std sink"); plain<sinks::std_sink<base::static_nullmutex>>("std sink st"); });
    section("colour sink on a file", [] { setenv("COLORTERM", "1", 1); setenv("TERM", "xterm", 1); plain<sinks::ansicolor_sink<base::static_mutex>>("colour sink"); });
    section("standard stream sink flushes each message", [] { std::string p = scratch() + "/f"; FILE *f = fopen(p.c_str(), "w"); setvbuf(f, 0, _IOFBF, 1 << 16); sinks::std_sink<base::static_mutex> s(f); int k = 0; feed(s, "now", 0, 0, 2, &k); eqs(slurp(p), "now", "flushed"); feed(s, " and", 0, 0, 0, &k); eqs(slurp(p), "now and", "flushed"); fclose(f); });
    section("short writes", [] { shortw<sinks::std_sink<base::static_mutex>>("std sink", true); shortw<sinks::ansicolor_sink<base::static_mutex>>("colour sink", true); });
    section("own streams", [] { int so = dup(1), se = dup(2); std::string a = scratch() + "/o", b = scratch() + "/e"; int x = open(a.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0600), y = open(b.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0600); fflush(stdout); fflush(stderr); dup2(x, 1); dup2(y, 2); { int k = 0; sinks::stdout_sink_mt p; sinks::stderr_sink_st q; sinks::stdout_ansicolor_sink_st r; sinks::stderr_ansicolor_sink_mt t; feed(p, "p", 0, 0, 2, &k); feed(q, "q", 0, 0, 2, &k); feed(r, "r", 0, 1, 2, &k); feed(t, "t", 0, 1, 2, &k); p.flush(); q.flush(); r.flush(); t.flush(); } fflush(stdout); fflush(stderr); dup2(so, 1); dup2(se, 2); eqs(slurp(a), "pr", "standard output"); eqs(slurp(b), "qt", "standard error"); });
    section("ostream sink", [] { Rng r(4); for (size_t n : LENS) for (int fl = 0; fl < 2; fl++) { struct B : std::stringbuf { int syncs = 0; int sync() override { syncs++; return 0; } } b; std::ostream o(&b); sinks::ostream_sink_mt s(o, fl != 0); std::string t = rnd_text(r, n); int k = 0; feed(s, t, 0, 0, 2, &k); eqs(b.str(), t, "bytes"); eq(b.syncs > 0, fl != 0, "flushed iff configured"); int was = b.syncs; s.flush(); eq(b.syncs, was + 1, "flush"); eq(k, 1, "formatted once"); } });
    section("ostream sink after a failed message, with settings on the stream", [] { std::ostringstream o; sinks::ostream_sink_mt s(o); int k = 0, th = 0; feed(s, "one", 0, 0, 2, &k); try { feed(s, "partial", 0, 0, 2, &k, true); } catch (const std::runtime_error &) { th = 1; } eq(th, 1, "failing formatter"); feed(s, "two", 0, 0, 2, &k); eqs(o.str(), "onetwo", "only whole messages"); o.width(12); o.fill('*'); o << std::left; feed(s, "three", 0, 0, 2, &k); eqs(o.str(), "onetwothree", "no padding"); });
    section("file sink", [] { Rng r(5); std::string all; std::string p = scratch() + "/file"; { sinks::basic_file_sink_mt s(p, true); for (size_t n : LENS) { std::string t = rnd_text(r, n); all += t; int k = 0; feed(s, t, 0, n, 2, &k); s.flush(); eqs(slurp(p), all, "bytes"); } int k = 0, th = 0; try { feed(s, "partial", 0, 0, 2, &k, true); } catch (const std::runtime_error &) { th = 1; } eq(th, 1, "failing formatter"); s.flush(); eqs(slurp(p), all, "nothing written for a failed message"); } });
    section("file sink on a full disk", [] { int th = 0, k = 0; { sinks::basic_file_sink_st s("/dev/full"); try { feed(s, std::string(70000, 'x'), 0, 0, 2, &k); } catch (const std::exception &) { th = 1; } } eq(th, 1, "reported"); });
    section("colours on a terminal", [] { setenv("COLORTERM", "1", 1); int m; FILE *f; if (!pty(m, f)) return; Rng r(6); sinks::ansicolor_sink<base::static_mutex> s(f); for (size_t n : {1, 2, 7, 30, 251, 1500}) for (int lv = 0; lv < 7; lv++) for (int q = 0; q < 6; q++) { std::string t = rnd_text(r, n); size_t a = r.below(n + 1), b = a + r.below(n - a + 1); if (q == 0) a = 0, b = n; if (q == 1) a = 0, b = 1; if (q == 2) b = n; if (q == 3) b = a; int k = 0; feed(s, t, a, b, lv, &k); s.flush();
        std::string want = a < b ? t.substr(0, a) + COL[lv] + t.substr(a, b - a) + "\033[m" + t.substr(b) : t; eqs(get(m, want.size()), want, "coloured bytes at " + std::to_string(a) + ".." + std::to_string(b)); }
        s.set_level_color(level::warn, "<W>"); int k = 0; feed(s, "abc", 1, 2, 3, &k); s.flush(); eqs(get(m, 9), "a<W>b\033[mc", "own colour"); feed(s, "abc", 1, 2, 2, &k); s.flush(); eqs(get(m, 9), "a\033[32mb\033[mc", "other colours kept");
        struct Pl : formatter { void format(const base::log_msg &, fmt_memory_buf &b) override { const char *q = "pl"; b.append(q, q + 2); } formatter_uni_ptr clone() const override { return nullptr; } }; s.set_formatter(formatter_uni_ptr(new Pl)); base::log_msg q(source_loc{}, level::info, "x", "n"); q.color_index_start = 0; q.color_index_end = 1; s.log(q); s.flush(); eqs(get(m, 2), "pl", "no marked range: plain bytes"); });
    static const char *T[] = {"dumb", "xterm-256color", "", "vt100", "linux", "unknown", "screen", "XTERM", "rxvt", "alacritty", "vt10", "ansi", "my-color-term"}; static const int C[] = {0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 1};
    for (int i = 0; i < 13; i++) section("terminal types", [i] { unsetenv("COLORTERM"); setenv("TERM", T[i], 1); int m; FILE *f; if (!pty(m, f)) return; sinks::ansicolor_sink<base::static_mutex> s(f); int k = 0; feed(s, "abc", 1, 2, 2, &k); s.flush(); eqs(get(m, 3), C[i] ? "a\033[32mb\033[mc" : "abc", std::string("terminal type ") + T[i]); });
    section("no terminal type", [] { unsetenv("COLORTERM"); unsetenv("TERM"); int m; FILE *f; if (!pty(m, f)) return; sinks::ansicolor_sink<base::static_mutex> s(f); int k = 0; feed(s, "abc", 1, 2, 2, &k); s.flush(); eqs(get(m, 3), "abc", "no terminal type"); });
    for (int q = 0; q < 2; q++) section("a file next to a terminal, in both orders", [q] { setenv("COLORTERM", "1", 1); int m; FILE *f; if (!pty(m, f)) return; { std::string p = scratch() + "/nt" + std::to_string(q); FILE *g = fopen(p.c_str(), "w"); typedef sinks::ansicolor_sink<base::static_mutex> S; std::unique_ptr<S> a, b; if (q) { a.reset(new S(f)); b.reset(new S(g)); } else { b.reset(new S(g)); a.reset(new S(f)); } int k = 0; feed(*b, "abc", 1, 2, 2, &k); b->flush(); eqs(slurp(p), "abc", "no colour in a file"); b.reset(); fclose(g); } });
    section("null sink", [] { sinks::null_sink_mt s; int k = 0; feed(s, "x", 0, 0, 2, &k); s.flush(); });
    return finish();
}
