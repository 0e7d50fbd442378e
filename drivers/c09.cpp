// C09: every flag's field for every message, independent of history (asan+ubsan).
#include "pat.h"
#include <thread>
#include <unistd.h>
#include <sys/wait.h>
static void check(pattern_formatter &pf, const std::vector<Item> &it, const Rf &m, State &st, const std::string &p, Rng &r) {
    std::string before(r.below(3) * 230, '#'); size_t cs, ce; base::log_msg x = m.msg(); x.color_index_start = 7777; x.color_index_end = 8888; std::string got = run(pf, x, before), want = before + render(it, m, st, cs, ce) + "\n"; kase(); if (got != want) eqs(got, want, p + " on level " + std::to_string(m.level) + " line " + std::to_string(m.line) + " time " + std::to_string(m.time));
    bool s = p.find("%^") != std::string::npos || p.find("%+") != std::string::npos, e = p.find("%$") != std::string::npos || p.find("%+") != std::string::npos; if (s) eq(x.color_index_start, cs + before.size(), p + ": colour start"); else eq((size_t)x.color_index_start, (size_t)7777, p + ": colour start untouched"); if (e) eq(x.color_index_end, ce + before.size(), p + ": colour end"); else eq((size_t)x.color_index_end, (size_t)8888, p + ": colour end untouched"); }
int main() {
    for (int z = 0; z < 3; z++) section("each flag alone", [z] { setenv("TZ", z == 0 ? "UTC" : z == 1 ? "America/St_Johns" : "Asia/Kolkata", 1); tzset(); Rng r(91 + z); int N = thorough() ? 8000 : 500; std::string fl = std::string(PADDED) + "+^$%";
        for (char f : fl) { std::string p = std::string("%") + f; pattern_formatter pf(p, "\n"); auto it = parse(p); State st; if (strchr("WXYZ", f)) { Rf q = rnd(r); run(pf, q.msg()); st.last[1] = q.time; }
            for (int i = 0; i < N; i++) { Rf m = rnd(r); if (strchr("WXYZ", f) && r.below(3)) m.time = st.last[1] + (long)r.below(r.below(2) ? 3000 : 5000000000UL); check(pf, it, m, st, p, r); } } });
    section("every second of some days, every weekday and month", [] { setenv("TZ", "UTC", 1); tzset(); Rng r(92); std::string p = "%c|%a|%b|%y|%m|%d|%H|%M|%S|%T|%E|%F|%G"; pattern_formatter pf(p, "\n"); auto it = parse(p); State st; for (long d = 0; d < 800; d++) { Rf m = rnd(r); m.time = (1700000000L + d * 86400 * 3 + d * 61) * 1000000000L + (long)r.below(1000000000); check(pf, it, m, st, p, r); }
        for (long s = 0; s < 86400; s += thorough() ? 1 : 23) { Rf m = rnd(r); m.text = "t"; m.time = (1730246400L + s) * 1000000000L + (s % 3 ? (long)r.below(1000000000) : 0); check(pf, it, m, st, p, r); }
        for (long ns : {0L, 1L, 9L, 999L, 1000L, 99999L, 999999L, 1000000L, 9999999L, 10000000L, 99999999L, 999999999L}) { Rf m = rnd(r); m.time = 1730246400L * 1000000000L + ns; check(pf, it, m, st, p, r); } });
    section("the default pattern: seconds repeated, skipped and going back", [] { Rng r(93); int N = thorough() ? 60000 : 6000; pattern_formatter d; std::string p = "%+"; auto it = parse(p); State st; long t = 1730000000000000000L; for (int i = 0; i < N; i++) { Rf m = rnd(r); switch (r.below(13)) { case 6: t += 60000000000L; break; case 7: t += 3600000000000L; break; case 8: t += 86400000000000L; break; case 9: t -= 60000000000L; break; case 10: t += 31L * 86400000000000L; break; case 11: t += 365L * 86400000000000L; break; case 12: t += 256L * 1000000000L; break; case 0: t = 0; break; case 1: t += 1000000000L; break; case 2: t -= 1000000000L; break; case 3: t = m.time; break; case 4: t += (long)r.below(1000); break; } if (t < 0 || t > 4000000000000000000L) t = 0; m.time = t; fmt_memory_buf b; base::log_msg x = m.msg(); d.format(x, b); size_t cs, ce; eqs(std::string(b.data(), b.size()), render(it, m, st, cs, ce) + "\n", "default pattern"); eq(x.color_index_start, cs, "colour start"); eq(x.color_index_end, ce, "colour end"); } 
        Rf e; e.name = ""; e.text = ""; pattern_formatter f; fmt_memory_buf b; f.format(e.msg(), b); size_t cs, ce; eqs(std::string(b.data(), b.size()), render(it, e, st, cs, ce) + "\n", "empty message at the epoch"); });
    section("history does not matter: one formatter against fresh ones", [] { Rng r(94); int N = thorough() ? 20000 : 2500; std::string p = "%+ %c %T.%G %@ %A %B %C %n %l %v %t %p %^%5l%$"; pattern_formatter one(p, "\n"); for (int i = 0; i < N; i++) { Rf m = rnd(r); if (r.below(2)) m.time = 1730000000000000000L + (long)r.below(3000000000UL); pattern_formatter fresh(p, "\n"); base::log_msg x = m.msg(), y = m.msg(); eqs(run(one, x), run(fresh, y), "same text"); eq(x.color_index_start, y.color_index_start, "colour start"); eq(x.color_index_end, y.color_index_end, "colour end"); } });
    section("mixed", [] { Rng r(95); for (int i = 0; i < (thorough() ? 20000 : 1500); i++) { std::string p; int n = 1 + r.below(6); for (int k = 0; k < n; k++) { p += "%"; p += "nlabcymdHMSEFGTptv@ABC+%"[r.below(24)]; if (r.below(2)) p += " x"; } if (r.below(2)) p = "%^" + p + "%$"; bool two = p.find("%+") != std::string::npos && p[1] == '^'; pattern_formatter pf(p, "\n"); auto it = parse(p); State st; for (int k = 0; k < 3; k++) { Rf m = rnd(r); if (two) { size_t a, b; base::log_msg x = m.msg(); eqs(run(pf, x), render(it, m, st, a, b) + "\n", p); } else check(pf, it, m, st, p, r); } } });
    section("thread ids are those of the message", [] { pattern_formatter f("%t", ""); for (int i = 0; i < 4; i++) { std::string a; size_t id = 0; std::thread t([&] { base::log_msg m(source_loc{}, level::info, "x", "n"); id = base::os::thread_id(); fmt_memory_buf b; f.format(m, b); a = std::string(b.data(), b.size()); }); t.join(); eqs(a, std::to_string(id), "%t"); } });
    section("since construction", [] { pattern_formatter f("%W", ""); long now = std::chrono::duration_cast<std::chrono::nanoseconds>(sys_clock::now().time_since_epoch()).count(); Rf m; m.text = "x"; m.time = now + 100000000000L; long v = atol(run(f, m.msg()).c_str()); ok(v >= 100000000000L - 1000 && v < 130000000000L, "first message counts from the construction"); pattern_formatter g("%Z", ""); m.time = 5; eqs(run(g, m.msg()), "0", "a message before the construction"); });
    section("the process id is that of the process that formats", [] { pattern_formatter f("%p", ""), g("%12p|%=9p", ""); auto own = [&] { std::string me = std::to_string(getpid()); size_t w = me.size(); int l = w < 9 ? (9 - (int)w) / 2 : 0; std::string c = w < 9 ? std::string(l, ' ') + me + std::string(9 - w - l, ' ') : me; (void)c; base::log_msg m(source_loc{}, level::info, "x", "n"); return run(f, m) == me && run(g, m).find(me) != std::string::npos; }; ok(own(), "process id"); for (int i = 0; i < 3; i++) { pid_t p = fork(); if (!p) _exit(own() ? 0 : 1); int st = 0; waitpid(p, &st, 0); ok(WIFEXITED(st) && WEXITSTATUS(st) == 0, "process id in a child"); } });
    return finish();
}
