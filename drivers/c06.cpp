// C06: text and record given to the sinks (asan+ubsan).
#include "cap.h"
#include "learnlog.h"
#include <thread>
#include <sys/syscall.h>
struct Count { mutable int *n; };
namespace fmt { template <> struct formatter<Count> { constexpr format_parse_context::iterator parse(format_parse_context &c) { return c.begin(); } template <class C> typename C::iterator format(const Count &x, C &c) const { ++*x.n; return fmt::format_to(c.out(), "counted"); } }; }
struct Bad {}; namespace fmt { template <> struct formatter<Bad> { constexpr format_parse_context::iterator parse(format_parse_context &c) { return c.begin(); } template <class C> typename C::iterator format(const Bad &, C &) const { throw std::runtime_error("no rendering"); } }; }
static std::string bytes(Rng &r) { static const char *pieces[] = {"{}", "{", "}", "{0}", "%", "%n", "\\", "abc", "{{", "}}", "{:d}"}; std::string s; int n = r.below(6); for (int i = 0; i < n; i++) { if (r.below(3) == 0) s += std::string(r.below(400), (char)r.below(256)); else s += pieces[r.below(11)]; } if (r.below(3) == 0) s += std::string(1, '\0') + "tail"; if (r.below(200) == 0) s += std::string(65530 + r.below(9000), 'w'); return s; }
static size_t gettid_() { return (size_t)syscall(SYS_gettid); }
int main() {
    section("plain text", [] { Rng r(1); Err err; int N = thorough() ? 30000 : 3000;
        for (int i = 0; i < N; i++) { auto s = cap(); logger lg(bytes(r), s); lg.set_log_level((level::level_enum)r.below(7)); int l = r.below(7); std::string t = bytes(r); fmt_string_view v(t.data(), t.size()); long tm = (long)(r.next() >> 3); if (r.below(4) == 0) tm = r.below(2) ? 0 : -tm; Rec e{lg.name(), t, l, 0, "", "", 0, gettid_(), nullptr}; long a = sys_clock::now().time_since_epoch().count(); int how = r.below(5);
            switch (how) { case 0: lg.log(sys_clock::time_point(sys_clock::duration(tm)), source_loc{"a.cpp", 7, "fun"}, (level::level_enum)l, v); e.time = tm; e.line = 7; e.file = "a.cpp"; e.fn = "fun"; break; case 1: lg.log(source_loc{"b.cpp", 1, "gun"}, (level::level_enum)l, v); e.line = 1; e.file = "b.cpp"; e.fn = "gun"; break;
                case 2: lg.log((level::level_enum)l, v); break; case 3: lg.log((level::level_enum)l, t); break; default: switch (l) { case 0: lg.trace(t); break; case 1: lg.debug(t); break; case 2: lg.info(t); break; case 3: lg.warn(t); break; case 4: lg.error(t); break; case 5: lg.critical(t); break; default: lg.log((level::level_enum)l, t); } }
            long b = sys_clock::now().time_since_epoch().count(); bool on = l >= lg.get_log_level(); eq((int)s->got.size(), (int)on, "count"); if (on) { same(s->got[0], e, "plain how " + std::to_string(how)); if (how) ok(s->got[0].time >= a && s->got[0].time <= b, "current time"); } eq(err.reports(), 0, "nothing reported"); } });
    section("rendered", [] { Rng r(2); Err err; int N = thorough() ? 30000 : 3000;
        for (int i = 0; i < N; i++) { auto s = cap(); logger lg("L", s); lg.set_log_level((level::level_enum)r.below(7)); int l = r.below(7), x = (int)r.next(); std::string t = bytes(r); level::level_enum L = (level::level_enum)l; Rec e{"L", "", l, 0, "", "", 0, gettid_(), nullptr}; int n = 0; Count c{&n}; bool on = l >= lg.get_log_level(), fails = false;
            switch (r.below(9)) { case 0: lg.log(L, "{}|{}", t, x); e.text = t + "|" + std::to_string(x); break; case 1: lg.log(source_loc{"c.cpp", 3, "h"}, L, "{1}{0:05d}{{", x % 1000 < 0 ? -(x % 1000) : x % 1000, t); { char q[16]; snprintf(q, 16, "%05d", x % 1000 < 0 ? -(x % 1000) : x % 1000); e.text = t + q + "{"; } e.line = 3; e.file = "c.cpp"; e.fn = "h"; break;
                case 2: lg.log(L, x); e.text = std::to_string(x); break; case 3: lg.log(source_loc{"d.cpp", 4, "k"}, L, x); e.text = std::to_string(x); e.line = 4; e.file = "d.cpp"; e.fn = "k"; break;
                case 4: lg.log(L, "{}", c); e.text = "counted"; eq(n, (int)on, "arguments rendered iff enabled"); break; case 5: lg.log(L, "a{}", Bad()); fails = true; break;
                case 6: lg.log(L, fmt::runtime("{} {} {}"), x); fails = true; break;
                case 7: e.text = "v" + std::to_string(x); switch (l) { case 0: lg.trace("v{}", x); break; case 1: lg.debug("v{}", x); break; case 2: lg.info("v{}", x); break; case 3: lg.warn("v{}", x); break; case 4: lg.error("v{}", x); break; case 5: lg.critical("v{}", x); break; default: lg.log(L, "v{}", x); } break;
                default: e.text = std::to_string(x); switch (l) { case 0: lg.trace(x); break; case 1: lg.debug(x); break; case 2: lg.info(x); break; case 3: lg.warn(x); break; case 4: lg.error(x); break; case 5: lg.critical(x); break; default: lg.log(L, x); } }
            eq((int)s->got.size(), (int)(on && !fails), "count"); if (s->got.size()) same(s->got[0], e, "rendered"); eq(err.reports(), (int)(on && fails), "reports"); } });
    for (int free = 0; free < 2; free++) section(free ? "default logger" : "literals and several arguments", [free] { Rng r(3); Err err; int N = thorough() ? 10000 : 1500;
        for (int i = 0; i < N; i++) { auto s = cap(); auto lp = std::make_shared<logger>(bytes(r), s); logger &lg = *lp; if (free) learnlog::set_default_logger(lp); lg.set_log_level((level::level_enum)r.below(7)); int l = r.below(7), x = (int)r.next(), y = (int)r.next(); level::level_enum L = (level::level_enum)l; std::string t = bytes(r); Rec e{lg.name(), "", l, 0, "", "", 0, gettid_(), nullptr}; bool on = l >= lg.get_log_level(), fails = false; int how = r.below(11);
#define ANY(...) do { if (free) { using namespace learnlog; learnlog::__VA_ARGS__; } else lg.__VA_ARGS__; } while (0)
#define EACH(args) switch (l) { case 0: ANY(trace args); break; case 1: ANY(debug args); break; case 2: ANY(info args); break; case 3: ANY(warn args); break; case 4: ANY(error args); break; case 5: ANY(critical args); break; default: ANY(log(L, "off")); e.text = "off"; }
            switch (how) { case 0: e.text = "lit {} {{ %d"; EACH(("lit {} {{ %d")); break; case 1: e.text = "lit } {0}"; ANY(log(L, "lit } {0}")); break; case 2: e.text = t; EACH((t)); break; case 3: e.text = t; ANY(log(L, t)); break;
                case 4: e.text = std::to_string(x); EACH((x)); break; case 5: e.text = std::to_string(x) + "," + std::to_string(y); EACH(("{},{}", x, y)); break; case 6: e.text = std::to_string(y) + "{" + std::to_string(x); ANY(log(L, "{1}{{{0}", x, y)); break; case 7: e.text = std::to_string(y) + t; e.line = 9; e.file = "z.cpp"; e.fn = "zz"; ANY(log(source_loc{"z.cpp", 9, "zz"}, L, "{1}{0}", t, y)); break;
                case 8: e.text = std::to_string(x); e.line = 8; e.file = "w.cpp"; e.fn = "ww"; ANY(log(source_loc{"w.cpp", 8, "ww"}, L, x)); break; case 9: e.text = std::to_string(x); ANY(log(L, x)); break; default: fails = true; ANY(log(L, "{}", Bad())); }
            eq((int)s->got.size(), (int)(on && !fails), "count"); if (s->got.size()) same(s->got[0], e, "call " + std::to_string(how)); eq(err.reports(), (int)(on && fails), "reports"); } learnlog::set_default_logger(nullptr); });
    section("threads", [] { auto s = cap(); logger lg("L", s); size_t ids[4]; std::thread t[4]; for (int i = 0; i < 4; i++) t[i] = std::thread([&, i] { ids[i] = gettid_(); for (int k = 0; k < 200; k++) lg.log(level::info, "{}", i); }); for (auto &x : t) x.join(); for (auto &g : s->got) eq(g.tid, ids[atoi(g.text.c_str())], "thread id of the caller"); eq(s->got.size(), (size_t)800, "all"); });
    return finish();
}
