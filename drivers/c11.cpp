// C11: one formatter of its own for every sink; clones; swaps (asan+ubsan).
#include "cap.h"
#include "pat.h"
#include "sinks/ostream_sink.h"
#include "include/async_logger.h"
#include "base/backtracer.h"
#include "base/lock_thread_pool.h"
#include <set>
struct Star : custom_flag_formatter { char c; explicit Star(char x) : c(x) {}
    void format(const base::log_msg &m, const std::tm &, fmt_memory_buf &b) override { std::string t = std::string("<") + c + std::to_string(m.msg.size()) + ">"; filler f(t.size(), spaces_info_, b); f.fill_msg(fmt_string_view(t.data(), t.size())); }
    std::unique_ptr<custom_flag_formatter> clone() const override { return std::unique_ptr<custom_flag_formatter>(new Star(c)); } };
struct L : logger { using logger::logger; };
static std::vector<CapP> caps(int n) { std::vector<CapP> v; for (int i = 0; i < n; i++) v.push_back(cap(i)); return v; }
static std::vector<sink_shr_ptr> up(const std::vector<CapP> &v) { return std::vector<sink_shr_ptr>(v.begin(), v.end()); }
static std::string fmt1(formatter &f, const Rf &m) { fmt_memory_buf b; f.format(m.msg(), b); return std::string(b.data(), b.size()); }
static void all_like(std::vector<CapP> &v, const std::string &pat, const std::string &eol, const std::string &custom, Rng &r) {
    std::set<formatter *> seen; auto it = parse(pat, custom);
    for (auto &c : v) { eq(c->given.size(), (size_t)1, "formatters given to a sink"); ok(c->given[0] != nullptr, "a sink got no formatter"); ok(seen.insert(c->given[0].get()).second, "two sinks share a formatter"); }
    for (int k = 0; k < 3; k++) { Rf m = rnd(r); for (auto &c : v) { State st; size_t a, b; eqs(fmt1(*c->given[0], m), render(it, m, st, a, b, custom, [&](char f, const Item &t) { return law(std::string("<") + f + std::to_string(m.text.size()) + ">", t.w, t.side, t.trunc); }) + eol, "formatter of a sink for \"" + show(pat) + "\""); } }
    for (auto &c : v) c->given.clear();       // each is destroyed by its own sink, once
}
int main() {
    static const char *P[] = {"%v", "%+", "[%l] %-20n|%v%", "%*x%12*", "%n", "", "%Q%%"};
    section("set_formatter and set_pattern", [] { Rng r(11); for (int n = 0; n <= (thorough() ? 20 : 9); n++) for (const char *p : P) { auto v = caps(n); auto s = up(v); logger l("n", s.begin(), s.end());
        l.set_pattern(p); all_like(v, p, "\n", "", r);
        for (const char *cu : {"", "*", "*v"}) for (const char *eol : {"\n", "", "##"}) { std::unique_ptr<pattern_formatter> f(new pattern_formatter("%v", eol)); for (const char *c = cu; *c; c++) f->add_custom_flag<Star>(*c, *c); f->set_pattern(p); l.set_formatter(std::move(f)); all_like(v, p, eol, cu, r); } } });
    section("a clone keeps what a later pattern needs", [] { Rng r(13); for (const char *p : P) for (const char *q : P) for (const char *cu : {"", "*", "*v", "Q%+"}) for (const char *eol : {"\n", "", "##"}) { std::unique_ptr<pattern_formatter> f(new pattern_formatter("%v", eol)); for (const char *c = cu; *c; c++) f->add_custom_flag<Star>(*c, *c); f->set_pattern(p); auto g = f->clone(); auto h = g->clone(); pattern_formatter *gp = dynamic_cast<pattern_formatter *>(g.get()), *hp = dynamic_cast<pattern_formatter *>(h.get()); ok(gp && hp, "the clone is a pattern formatter"); if (!gp || !hp) continue; gp->set_pattern(q); hp->set_pattern(q); f->set_pattern(q); Rf m = rnd(r); m.time = 1730000000000000000L; std::string want = fmt1(*f, m); eqs(fmt1(*g, m), want, "pattern set on a clone"); eqs(fmt1(*h, m), want, "pattern set on the clone of a clone"); } });
    section("clone of a pattern formatter is independent", [] { Rng r(12); for (const char *p : P) { std::unique_ptr<pattern_formatter> f(new pattern_formatter("", "$")); f->add_custom_flag<Star>('*', '*'); f->set_pattern(p); auto g = f->clone(); auto h = g->clone(); Rf m = rnd(r); std::string want = fmt1(*f, m); f->set_pattern("changed"); eqs(fmt1(*g, m), want, "clone after a change of the original"); f.reset(); eqs(fmt1(*g, m), want, "clone after the original is gone"); g.reset(); eqs(fmt1(*h, m), want, "clone of a clone"); } });
    section("real sinks take pattern and formatter", [] { std::ostringstream o; auto s = std::make_shared<sinks::ostream_sink_mt>(o); logger l("nm", s); l.set_pattern("%n|%v"); l.info("x"); eqs(o.str(), "nm|x\n", "pattern"); o.str(""); l.set_formatter(formatter_uni_ptr(new pattern_formatter("%v", "!"))); l.info("y"); eqs(o.str(), "y!", "formatter"); });
    section("clone of a logger", [] { for (int n = 0; n < 5; n++) for (int as = 0; as < 2; as++) { auto v = caps(n); auto s = up(v); auto tp = std::make_shared<base::lock_thread_pool>(16, 1); logger_shr_ptr l; if (as) l = std::make_shared<async_logger>("old", s.begin(), s.end(), tp); else l = std::make_shared<logger>("old", s.begin(), s.end());
        l->set_log_level(level::warn); l->set_flush_level(level::error); l->set_pattern("%v!"); for (auto &c : v) c->given.clear(); auto k = l->clone("new name"); eqs(k->name(), "new name", "name"); eqs(l->name(), "old", "old name"); eq((int)k->get_log_level(), 3, "level"); eq((int)k->get_flush_level(), 4, "flush level"); ok(k->sinks() == l->sinks(), "sinks"); eqs(k->get_pattern(), "%v!", "pattern"); eq(k->is_async(), as != 0, "kind"); l->set_log_level(level::trace); eq((int)k->get_log_level(), 3, "levels are independent");
        k->warn("w"); k->info("i"); k.reset(); l.reset(); tp.reset(); for (auto &c : v) { auto t = c->take(); eq(t.size(), (size_t)1, "messages"); eqs(t[0].name, "new name", "name in the message"); } } });
    section("swap", [] { for (int n = 0; n < 4; n++) for (int m = 0; m < 4; m++) for (int how = 0; how < 3; how++) { auto v = caps(n), w = caps(m); auto s = up(v), t = up(w); logger a("first", s.begin(), s.end()), b("second with a longer name than the other", t.begin(), t.end()); a.set_pattern("%v"); b.set_pattern("a longer pattern than the other %v %n"); a.set_log_level(level::warn); b.set_log_level(level::debug); a.set_flush_level(level::critical); b.set_flush_level(level::error); a.enable_backtrace_n(3);
        if (how == 0) a.swap(b); else if (how == 1) learnlog::swap(a, b); else { a.swap(a); learnlog::swap(b, a); a.swap(b); b.swap(b); a.swap(b); }
        eqs(a.name(), "second with a longer name than the other", "name"); eqs(b.name(), "first", "name"); ok(a.sinks() == t && b.sinks() == s, "sinks"); eq((int)a.get_log_level(), 1, "level"); eq((int)b.get_log_level(), 3, "level"); eq((int)a.get_flush_level(), 4, "flush level"); eq((int)b.get_flush_level(), 5, "flush level"); eqs(b.get_pattern(), "%v", "pattern"); eqs(a.get_pattern(), "a longer pattern than the other %v %n", "pattern");
        b.debug("kept"); a.trace("no"); for (auto &c : v) c->take(); for (auto &c : w) c->take(); a.dump_backtrace(); for (auto &c : w) eq(c->take().size(), (size_t)0, "backtrace went along"); b.dump_backtrace(); for (auto &c : v) eq(c->take().size(), (size_t)3, "backtrace went along"); } });
    return finish();
}
