// C16: formatting, writing, flushing and replacing the formatter under one lock per sink (thread sanitizer).
// FLAGS: -fsanitize=thread -g -O1 -std=c++11
// LDFLAGS: -fsanitize=thread
#include "cap.h"
#include "sinks/ostream_sink.h"
#include "sinks/basic_file_sink.h"
#include "sinks/rolling_file_sink.h"
#include "sinks/std_sinks.h"
#include "sinks/ansicolor_sink.h"
#include "sinks/null_sink.h"
#include <thread>
#include <atomic>
using namespace learnlog::sinks;
extern "C" const char *__tsan_default_options() { return "halt_on_error=1:exitcode=66:second_deadlock_stack=1"; }
static std::atomic<int> in_format(0), overlap(0);
// plain state on purpose: the sink's lock must protect it; throws now and then
struct Probe : formatter { int n = 0; std::string last; bool thr; explicit Probe(bool t = false) : thr(t) {}
    void format(const base::log_msg &m, fmt_memory_buf &b) override { if (in_format++) overlap++; n++; last.assign(m.msg.data(), m.msg.size()); for (volatile int i = 0; i < 50; i = i + 1) {} if (thr && n % 5 == 0) { in_format--; throw std::runtime_error("format"); } b.append(last.data(), last.data() + last.size()); b.push_back('\n'); m.color_index_start = 0; m.color_index_end = 1; in_format--; }
    formatter_uni_ptr clone() const override { return formatter_uni_ptr(new Probe(thr)); } };
static void work(std::vector<sink *> ss, bool thr, bool swap, int per, int nt = 4) {
    std::vector<std::thread> t; for (auto s : ss) s->set_formatter(formatter_uni_ptr(new Probe(thr)));
    for (int k = 0; k < nt; k++) t.emplace_back([&, k] { for (int i = 0; i < per; i++) { std::string x = std::string(1, (char)('a' + k)) + std::to_string(i) + std::string(40 + k, (char)('a' + k)); base::log_msg m(source_loc{}, level::warn, x, "n"); sink *s = ss[(i + k) % ss.size()]; try { s->log(m); } catch (const std::exception &) {} if (i % 7 == k % 7) try { s->flush(); } catch (const std::exception &) {} if (swap && k == 0 && i % 3 == 0) s->set_formatter(formatter_uni_ptr(new Probe(thr))); } });
    for (auto &x : t) x.join(); ok(overlap == 0, "two threads formatted at once");
}
static bool line_ok(const std::string &l) { if (l.size() < 3) return false; char c = l[0]; size_t i = 1; while (i < l.size() && isdigit(l[i])) i++; if (i == 1 || l.size() - i != (size_t)(40 + c - 'a')) return false; for (; i < l.size(); i++) if (l[i] != c) return false; return true; }
static void whole(const std::string &all, int per, int nt, bool thr, const char *w) { std::istringstream in(all); std::string l; std::vector<int> last(nt, -1); int n = 0; while (std::getline(in, l)) { ok(line_ok(l), std::string(w) + ": messages interleave: " + show(l)); int k = l[0] - 'a'; int i = atoi(l.c_str() + 1); ok(k >= 0 && k < nt && i > last[k], std::string(w) + ": order of one thread"); last[k] = i; n++; } if (!thr) eq(n, per * nt, std::string(w) + ": messages"); }
static int per() { return thorough() ? 3000 : 400; }
int main() {
    mkscratch();
    for (int thr = 0; thr < 2; thr++) {
        section("ostream sink", [thr] { std::ostringstream o; sinks::ostream_sink_mt s(o); work({&s}, thr, true, per()); whole(o.str(), per(), 4, thr, "ostream"); });
        section("file sink", [thr] { std::string p = scratch() + "/f" + std::to_string(thr); { sinks::basic_file_sink_mt s(p, true); work({&s}, thr, true, per()); } whole(slurp(p), per(), 4, thr, "file"); });
        section("rolling sink", [thr] { std::string p = scratch() + "/r" + std::to_string(thr) + ".log"; { sinks::rolling_file_sink_mt s(p, 2000, 9); work({&s}, thr, true, per() / 4); } });
        section("standard stream sink", [thr] { FILE *f = tmpfile(); sinks::std_sink<base::static_mutex> s(f), s2(f); sinks::ansicolor_sink<base::static_mutex> s3(f); work({&s, &s2, &s3}, thr, true, per()); s.flush(); rewind(f); std::string a; char b[4096]; size_t k; while ((k = fread(b, 1, 4096, f)) > 0) a.append(b, k); std::istringstream in(a); std::string l; int n = 0; while (std::getline(in, l)) { ok(line_ok(l), "messages on a standard stream interleave: " + show(l)); n++; } if (!thr) eq(n, per() * 4, "messages"); });
        section("null sink", [thr] { sinks::null_sink_mt s; work({&s}, thr, true, per()); });
    }
    section("patterns are replaced while logging", [] { std::ostringstream o; sinks::ostream_sink_mt s(o); FILE *f = fopen("/dev/null", "w"); sinks::ansicolor_sink<base::static_mutex> c(f); sinks::std_sink<base::static_mutex> d(f); std::vector<std::thread> t; for (int k = 0; k < 4; k++) t.emplace_back([&, k] { for (int i = 0; i < per(); i++) { base::log_msg m(source_loc{}, level::info, "text", "n"); if (k == 0) { s.set_pattern(i % 2 ? "A%v" : "B%n%v"); c.set_pattern("%^%v%$"); d.set_pattern("%v"); c.set_level_color(level::info, i % 2 ? "x" : "a longer colour code than fits inline"); } else { s.log(m); c.log(m); d.log(m); } } }); for (auto &x : t) x.join(); });
    section("two sinks of different kinds share the standard streams' lock", [] { FILE *f = fopen("/dev/null", "w"); sinks::std_sink<base::static_mutex> a(f); sinks::ansicolor_sink<base::static_mutex> b(f); sinks::stdout_sink_mt so; sinks::stderr_sink_mt se; sinks::stdout_ansicolor_sink_mt co; sinks::stderr_ansicolor_sink_mt ce; sink *P[] = {&a, &b, &a, &so, &se, &co, &ce, &so, &ce, &se, &a}; for (int q = 0; q + 1 < 11; q++) { sink *holder = P[q], *other = P[q + 1]; struct Block : formatter { std::atomic<int> *st; void format(const base::log_msg &, fmt_memory_buf &) override { *st = 1; for (int i = 0; i < 30; i++) usleep(5000); *st = 2; } formatter_uni_ptr clone() const override { return nullptr; } }; struct Look : formatter { std::atomic<int> *st; int *saw; void format(const base::log_msg &, fmt_memory_buf &) override { *saw = *st; } formatter_uni_ptr clone() const override { return nullptr; } };
        std::atomic<int> st(0); int saw = 0; { Block *x = new Block; x->st = &st; holder->set_formatter(formatter_uni_ptr(x)); Look *y = new Look; y->st = &st; y->saw = &saw; other->set_formatter(formatter_uni_ptr(y)); } std::thread t([&] { base::log_msg m(source_loc{}, level::info, "x", "n"); holder->log(m); }); while (!st) usleep(1000); base::log_msg m(source_loc{}, level::info, "y", "n"); other->log(m); t.join(); eq(saw, 2, "the other sink waited"); } });
    section("the lock is released when formatting throws", [] { std::ostringstream o; sinks::ostream_sink_mt s(o); std::string p = scratch() + "/x"; sinks::basic_file_sink_mt g(p); FILE *f = tmpfile(); sinks::std_sink<base::static_mutex> a(f); sinks::ansicolor_sink<base::static_mutex> b(f); for (sink *k : std::vector<sink *>{&s, &g, &a, &b}) { struct T : formatter { void format(const base::log_msg &, fmt_memory_buf &) override { throw std::runtime_error("x"); } formatter_uni_ptr clone() const override { return nullptr; } }; k->set_formatter(formatter_uni_ptr(new T)); base::log_msg m(source_loc{}, level::info, "x", "n"); int th = 0; try { k->log(m); } catch (const std::exception &) { th = 1; } eq(th, 1, "the exception reaches the caller"); std::thread t([&] { k->set_pattern("%v"); k->log(m); k->flush(); }); t.join(); } }, 20);
    return finish();
}
