// C24: errors are reported once on stderr and not thrown (asan+ubsan).
#include "reg.h"
#include "sinks/basic_file_sink.h"
#include "base/exception.h"
#include <cerrno>
#include <limits.h>
static size_t count(const std::string &s, const std::string &t) { size_t n = 0; for (size_t p = 0; (p = s.find(t, p)) != std::string::npos; p += t.size()) n++; return n; }
template <class F> static void quiet(const std::string &h, F f, std::vector<std::string> msgs, bool other = false) {
    Err e; bool st = false, ot = false; try { f(); } catch (const std::exception &) { st = true; } catch (...) { ot = true; } std::string s = e.take();
    ok(!st, h + ": a standard exception reached the caller"); eq(ot, other, h + ": other exceptions passed on"); size_t n = count(s, "[*** EXCEPTION #"); if (other) ok(n > msgs.size(), h + ": another exception is reported too"); else eq(n, msgs.size(), h + ": reports on stderr");
    size_t p = 0; for (auto &m : msgs) { p = s.find(m, p); ok(p != std::string::npos, h + ": the report carries the message \"" + show(m) + "\", stderr: " + show(s)); p += m.size(); } }
// a call that may or may not meet the failure (how often a formatter is cloned is not prescribed): nothing standard escapes, at most one report, with the message
template <class F> static void atmost(const std::string &h, F f, const std::string &m, bool other) {
    Err e; bool st = false, ot = false; try { f(); } catch (const std::exception &) { st = true; } catch (...) { ot = true; } std::string s = e.take(); size_t n = count(s, "[*** EXCEPTION #");
    ok(!st, h + ": a standard exception reached the caller"); ok(other ? ot == (n > 0) : !ot && n <= 1 && (n == 0 || s.find(m) != std::string::npos), h + ": reports on stderr: " + show(s)); }
struct Bad : Cap { int what = 0; bool other = false; void boom(int k, const char *m) { if (what == k) { if (other) throw 7; throw std::runtime_error(std::string(m) + " failed"); } }
    void log(const base::log_msg &m) override { boom(1, "log"); Cap::log(m); } void flush() override { boom(2, "flush"); Cap::flush(); } void set_pattern(const std::string &p) override { boom(3, "setter"); Cap::set_pattern(p); } void set_formatter(formatter_uni_ptr f) override { boom(3, "setter"); Cap::set_formatter(std::move(f)); } };
struct BadFmt : sinks::formatter { bool other; int left; BadFmt(int l, bool o) : other(o), left(l) {} void format(const base::log_msg &, fmt_memory_buf &) override {} formatter_uni_ptr clone() const override { if (left == 0) { if (other) throw 7; throw std::runtime_error("clone failed"); } return formatter_uni_ptr(new BadFmt(left - 1, other)); } };
static void usable(const std::string &h) { auto c = cap(); auto l = std::make_shared<logger>("usable " + h, c); Err e; try { reg().register_logger(l); } catch (...) { fail(h + ": afterwards a logger cannot be registered"); } ok(learnlog::get_logger("usable " + h) == l, h + ": afterwards a logger can be registered"); l->set_log_level(level::trace); l->info("x"); l->flush(); eq(c->got.size(), (size_t)1, h + ": afterwards a logger logs"); learnlog::set_global_log_level(level::info); learnlog::flush_all(); learnlog::remove_logger("usable " + h); ok(!learnlog::get_logger("usable " + h), h + ": afterwards a logger can be removed"); eq(e.reports(), 0, h + ": nothing else is reported"); }
template <int O> struct Rejects : Bad { Rejects() { what = 3; other = O != 0; } };
template <int O> static void rejecting(bool fmtr) { std::vector<std::string> m; if (!O) m.push_back("setter failed"); std::string h = std::string("factory whose sink rejects the formatter with ") + (O ? "another" : "a standard") + " exception: ";
    for (int i = 0; i < 4; i++) { clean(); if (fmtr) learnlog::set_global_formatter(formatter_uni_ptr(new BadFmt(1000, false))); else learnlog::set_global_pattern("%v"); logger_shr_ptr r;
        if (i == 0) quiet(h + "sync", [&] { r = learnlog::create<Rejects<O>>("rejecting"); }, m, O); if (i == 1) quiet(h + "lock", [&] { r = learnlog::create_async_lock<Rejects<O>>("rejecting"); }, m, O); if (i == 2) quiet(h + "lockfree", [&] { r = learnlog::create_async_lockfree<Rejects<O>>("rejecting"); }, m, O); if (i == 3) quiet(h + "lockfree concurrent", [&] { r = learnlog::create_async_lockfree_concurrent<Rejects<O>>("rejecting"); }, m, O);
        if (!O) ok(r && r->name() == "rejecting", h + "the logger is returned"); r.reset(); usable("rejecting"); } clean(); learnlog::close(); }
int main() {
    mkscratch();
    for (int f = 0; f < 2; f++) section("factories with sinks that reject the formatter", [f] { rejecting<0>(f != 0); rejecting<1>(f != 0); });
    section("error objects", [] { const char *ms[] = {"", "m", "a message: with %s {} \n percent", "long"}; int es[] = {0, 1, ENOENT, EACCES, ENOSPC, ERANGE, EINTR, EPIPE, 133, 9999, INT_MAX}; for (int k = 0; k < 4; k++) { std::string m = ms[k]; if (k == 3) m = std::string(5000, 'q');
        learnlog_excpt a(m); eqs(a.what(), m, "message"); try { throw_learnlog_excpt(m); fail("nothing thrown"); } catch (const std::exception &e) { eqs(e.what(), m, "message thrown"); }
        for (int e : es) { std::string w = m + ": " + strerror(e); learnlog_excpt b(m, e); eqs(b.what(), w, "message and error text"); try { throw_learnlog_excpt(m, e); fail("nothing thrown"); } catch (const std::exception &x) { eqs(x.what(), w, "message and error text thrown"); }
            for (int ln : {0, 1, 77, 2147483647}) for (const char *fn : {"f", "some::function<int>"}) for (const char *fi : {"a.cpp", "/a/b/c.h"}) { source_loc loc{fi, ln, fn}; std::string v = w + "\n[location: " + fi + ":" + std::to_string(ln) + " - " + fn + "]"; learnlog_excpt c(m, e, loc); eqs(c.what(), v, "message, error text and location"); learnlog_excpt d(c); eqs(d.what(), v, "copy"); learnlog_excpt g(std::move(d)); eqs(g.what(), v, "moved"); try { throw_learnlog_excpt(m, e, loc); fail("nothing thrown"); } catch (const learnlog_excpt &x) { eqs(x.what(), v, "message, error text and location thrown"); } } } } });
    section("reports", [] { for (int i = 0; i < 40; i++) { std::string m = "message %s %d %n {} #" + std::to_string(i); if (i % 5 == 1) m = std::string(i * 300, 'x') + "!" + m; if (i % 7 == 2) m = ""; usleep(50); Err e; handle_excpt(m); std::string s = e.take(); eq(count(s, "[*** EXCEPTION #"), (size_t)1, "one report"); ok(s.size() > m.size() + 1 && s.compare(s.size() - m.size() - 1, m.size(), m) == 0 && s.back() == '\n', "the report ends with the message: " + show(s)); } 
        std::atomic<int> go{0}; Err e; std::vector<std::thread> ts; for (int t = 0; t < 4; t++) ts.emplace_back([&, t] { for (int i = 0; i < 50; i++) handle_excpt("<" + std::to_string(t) + "." + std::to_string(i) + ">"); }); for (auto &t : ts) t.join(); std::string s = e.take(); eq(count(s, "[*** EXCEPTION #"), (size_t)200, "reports of four threads"); for (int t = 0; t < 4; t++) for (int i = 0; i < 50; i++) eq(count(s, "] <" + std::to_string(t) + "." + std::to_string(i) + ">\n"), (size_t)1, "each report once"); });
    section("names", [] { clean(); auto c = cap(); auto l = std::make_shared<logger>("taken", c); learnlog::register_logger(l);
        quiet("register under a taken name", [&] { learnlog::register_logger(std::make_shared<logger>("taken", c)); }, {"taken"}); ok(learnlog::get_logger("taken") == l, "the first logger is kept");
        quiet("initialise under a taken name", [&] { learnlog::initialize_logger(std::make_shared<logger>("taken", c)); }, {"taken"}); learnlog::set_auto_register_logger(false); quiet("initialise without registration", [&] { learnlog::initialize_logger(std::make_shared<logger>("taken", c)); }, {}); learnlog::set_auto_register_logger(true);
        for (std::string n : {"", "no such logger", "taken "}) { quiet("pattern of an unknown logger", [&] { learnlog::set_pattern(n, "%v"); }, {"'" + n + "'"}); quiet("level of an unknown logger", [&] { learnlog::set_log_level(n, level::warn); }, {"'" + n + "'"}); quiet("flush level of an unknown logger", [&] { learnlog::set_flush_level(n, level::warn); }, {"'" + n + "'"}); quiet("lookup and removal", [&] { ok(!learnlog::get_logger(n), "unknown"); learnlog::remove_logger(n); }, {}); }
        quiet("calls that succeed", [&] { learnlog::set_pattern("taken", "%v"); learnlog::set_log_level("taken", level::warn); learnlog::set_flush_level("taken", level::warn); }, {}); usable("names"); });
    section("factories", [] { clean(); auto l = std::make_shared<logger>("taken", cap()); learnlog::register_logger(l); for (int i = 0; i < 3; i++) { logger_shr_ptr r;
        quiet("sync factory", [&] { r = learnlog::create<sinks::null_sink_mt>("taken"); }, {"taken"}); ok(r && r != l && r->name() == "taken" && !r->is_async(), "sync factory: the logger is returned"); r.reset();
        quiet("lock factory", [&] { r = learnlog::create_async_lock<sinks::null_sink_mt>("taken"); }, {"taken"}); ok(r && r != l && r->name() == "taken" && r->is_async(), "lock factory: the logger is returned"); r.reset();
        quiet("lockfree factory", [&] { r = learnlog::create_async_lockfree<sinks::null_sink_mt>("taken"); }, {"taken"}); ok(r && r != l && r->is_async(), "lockfree factory: the logger is returned"); r.reset();
        quiet("lockfree concurrent factory", [&] { r = learnlog::create_async_lockfree_concurrent<sinks::null_sink_mt>("taken"); }, {"taken"}); ok(r && r != l && r->is_async(), "lockfree concurrent factory: the logger is returned"); r.reset();
        quiet("file factory", [&] { r = basic_file_logger_mt("taken", scratch() + "/f.log"); }, {"taken"}); ok(r && r->name() == "taken", "file factory: the logger is returned"); r.reset(); ok(learnlog::get_logger("taken") == l, "the first logger is kept"); }
        quiet("a free name", [&] { ok(!!learnlog::create<sinks::null_sink_mt>("free"), "created"); ok(!!learnlog::create_async_lock<sinks::null_sink_mt>("free2"), "created"); }, {}); usable("factories"); learnlog::close(); });
    section("setters that fail", [] { for (int o = 0; o < 2; o++) for (int pos = 0; pos < 3; pos++) { clean(); std::vector<std::shared_ptr<Bad>> bs; for (int i = 0; i < 3; i++) { auto b = std::make_shared<Bad>(); bs.push_back(b); learnlog::register_logger(std::make_shared<logger>("l" + std::to_string(i), b)); } bs[pos]->what = 3; bs[pos]->other = o; std::string h = std::string(o ? "other" : "standard") + " exception of setter " + std::to_string(pos); std::vector<std::string> m; if (!o) m.push_back("setter failed");
        quiet(h + ": set_pattern", [&] { learnlog::set_pattern("l" + std::to_string(pos), "%v"); }, m, o); quiet(h + ": set_pattern of another", [&] { learnlog::set_pattern("l" + std::to_string((pos + 1) % 3), "%v"); }, {}); quiet(h + ": set_global_pattern", [&] { learnlog::set_global_pattern("%v"); }, m, o); quiet(h + ": set_global_formatter", [&] { learnlog::set_global_formatter(formatter_uni_ptr(new BadFmt(1000, false))); }, m, o);
        { auto b = std::make_shared<Bad>(); b->what = 3; b->other = o; auto l = std::make_shared<logger>("fresh", b); quiet(h + ": initialize_logger", [&] { learnlog::initialize_logger(l); }, m, o); }
        bs[pos]->what = 0; quiet(h + ": afterwards", [&] { learnlog::set_global_pattern("%v"); learnlog::set_global_log_level(level::warn); learnlog::set_global_flush_level(level::off); learnlog::flush_all(); int n = 0; learnlog::exec_all([&](logger_shr_ptr l) { n++; eq((int)l->get_log_level(), (int)level::warn, h + ": level set afterwards"); }); }, {}); usable("setter"); }
        for (int o = 0; o < 2; o++) for (int left = 0; left < 3; left++) { clean(); for (int i = 0; i < 3; i++) learnlog::register_logger(std::make_shared<logger>("l" + std::to_string(i), cap())); atmost("formatter that cannot be cloned", [&] { learnlog::set_global_formatter(formatter_uni_ptr(new BadFmt(left, o))); }, "clone failed", o); quiet("afterwards", [&] { learnlog::set_global_pattern("%v"); }, {}); usable("clone"); } });
    section("sinks that fail", [] { for (int as = 0; as < 4; as++) for (int w = 1; w < 3; w++) for (int pos = 0; pos < 3; pos++) for (int o = 0; o < (as ? 1 : 2); o++) { clean(); std::vector<std::shared_ptr<Bad>> bs; std::vector<sink_shr_ptr> ss; for (int i = 0; i < 3; i++) { auto b = std::make_shared<Bad>(); b->set_level(level::trace); bs.push_back(b); ss.push_back(b); } bs[pos]->what = w; bs[pos]->other = o; thread_pool_shr_ptr tp; if (as == 1) tp = std::make_shared<base::lock_thread_pool>(8, 1); if (as == 2) tp = std::make_shared<base::lockfree_thread_pool>(8, 1); if (as == 3) tp = std::make_shared<base::lockfree_concurrent_thread_pool>(8, 1);
        logger_shr_ptr l; if (as) l = std::make_shared<async_logger>("l", ss.begin(), ss.end(), tp); else l = std::make_shared<logger>("l", ss.begin(), ss.end()); learnlog::register_logger(l); learnlog::set_default_logger(l); std::string h = std::string(w == 1 ? "log" : "flush") + " of sink " + std::to_string(pos) + (o ? " (other)" : "") + " kind " + std::to_string(as); std::string m = w == 1 ? "log failed" : "flush failed"; std::vector<std::string> ms, none; if (!o) ms.push_back(m);
        quiet(h + ": info", [&] { l->info("{}", 1); if (as && w == 1) l->flush(); }, w == 1 ? ms : none, w == 1 && o); quiet(h + ": plain", [&] { l->info(std::string("x")); if (as && w == 1) l->flush(); }, w == 1 ? ms : none, w == 1 && o); quiet(h + ": default logger", [&] { learnlog::warn("{}", 2); if (as && w == 1) l->flush(); }, w == 1 ? ms : none, w == 1 && o);
        quiet(h + ": flush", [&] { l->flush(); }, w == 2 ? ms : none, w == 2 && o); quiet(h + ": flush_all", [&] { learnlog::flush_all(); }, w == 2 ? ms : none, w == 2 && o); l->set_flush_level(level::info); if (w == 2 && !as) quiet(h + ": flush level", [&] { l->error("{}", 3); }, ms, o); l->set_flush_level(level::off); bs[pos]->what = 0; quiet(h + ": afterwards", [&] { l->info("y"); l->flush(); }, {});
        for (int i = 0; i < 3; i++) { size_t n = bs[i]->got.size(); if (w == 1 && !o) eq(n, i == pos ? (size_t)1 : (size_t)4, h + ": the other sinks get every message"); } learnlog::remove_logger("l"); tp.reset(); usable("sinks"); } });
    section("format errors", [] { auto c = cap(); auto l = std::make_shared<logger>("l", c); quiet("a format text that does not fit", [&] { l->info(fmt::runtime("{} {}"), 1); }, {"argument"}); quiet("a bad format text", [&] { l->info(fmt::runtime("{"), 1); }, {""}); eq(c->got.size(), (size_t)0, "nothing is written"); quiet("afterwards", [&] { l->info("{}", 1); }, {}); eq(c->got.size(), (size_t)1, "afterwards"); });
    section("pools", [] { clean(); for (size_t n : {(size_t)0, (size_t)1025, (size_t)100000}) { quiet("lock pool with a bad worker count", [&] { learnlog::initialize_thread_pool<base::lock_thread_pool>(8, n); }, {""}); quiet("lockfree pool with a bad worker count", [&] { learnlog::initialize_thread_pool<base::lockfree_thread_pool>(8, n); }, {""}); quiet("lockfree concurrent pool with a bad worker count", [&] { learnlog::initialize_thread_pool<base::lockfree_concurrent_thread_pool>(8, n); }, {""}); ok(!learnlog::get_thread_pool(), "no pool"); }
        quiet("a pool", [&] { learnlog::initialize_thread_pool<base::lock_thread_pool>(8, 2); ok(!!learnlog::get_thread_pool(), "a pool"); learnlog::register_thread_pool(nullptr); }, {}); auto tp = std::make_shared<base::lock_thread_pool>(8, 1); auto l = std::make_shared<async_logger>("l", cap(), tp); tp.reset(); quiet("logging without a pool", [&] { l->info("x"); }, {"thread pool does not exist"}); quiet("flushing without a pool", [&] { l->flush(); }, {"thread pool does not exist"});
        { auto c = cap(); tp = std::make_shared<base::lock_thread_pool>(8, 1); async_logger st("st", c, tp); quiet("an asynchronous logger that is not shared", [&] { st.set_log_level(level::trace); st.info("x"); }, {""}); } usable("pools"); });
    section("flush_every and close", [] { clean(); quiet("flush_every", [&] { learnlog::flush_every(milliseconds(0)); learnlog::flush_every(milliseconds(5)); learnlog::close(); learnlog::close(); }, {}); });
    return finish();
}
