// C04: backtrace recorder and dump (asan+ubsan) against a list model.
#include "cap.h"
#include "base/backtracer.h"
using namespace learnlog::base;
int main() {
    section("logger", [] { Rng r(1); int N = thorough() ? 20000 : 1500;
        for (int i = 0; i < N; i++) { auto s = cap(), s2 = cap(1, 0); logger lg("lg" + std::to_string(i % 7), {s, s2}); std::deque<Rec> mem; size_t n = 0; bool on = false; int lvl = 2, fl = 6; std::string h = "case " + std::to_string(i) + ":";
            for (int st = 0; st < 30; st++) { int op = r.below(12);
                if (op == 0) { n = 1 + r.below(6); on = true; mem.clear(); lg.enable_backtrace_n(n); h += " enable" + std::to_string(n); }
                else if (op == 1) { on = false; mem.clear(); lg.disable_backtrace(); h += " disable"; }
                else if (op == 2) { lvl = r.below(7); lg.set_log_level((level::level_enum)lvl); h += " level"; }
                else if (op <= 4) { h += " dump"; lg.dump_backtrace();
                    for (auto &k : {s, s2}) { auto g = k->take();
                        if (!on) { eq(g.size(), (size_t)0, h + " dump while off"); continue; }
                        eq(g.size(), mem.size() + 2, h + " dumped count"); ok(g[0].text.find("Backtrace Start") != std::string::npos && g.back().text.find("Backtrace End") != std::string::npos, h + " banners");
                        eqs(g[0].name, lg.name(), h + " banner name");
                        for (size_t j = 0; j < mem.size(); j++) same(g[j + 1], mem[j], h + " dumped"); }
                    if (on) mem.clear(); }
                else { int l = r.below(7); std::string t(r.below(4) ? r.below(12) : 600 + r.below(300), (char)('a' + r.below(26))); Rec e{lg.name(), t, l, 0, "", "", 0, os::thread_id(), nullptr}; long tm = 1000000000l * (1 + r.below(1u << 30));
                    switch (op % 4) { case 0: { std::string tt = t; lg.log((level::level_enum)l, fmt_string_view(tt.data(), tt.size())); tt.assign(tt.size(), '#'); break; } case 1: lg.log(source_loc{"f.cpp", 5, "fn"}, (level::level_enum)l, fmt_string_view(t.data(), t.size())); e.line = 5; e.file = "f.cpp"; e.fn = "fn"; break;
                        case 2: lg.log(sys_clock::time_point(sys_clock::duration(tm)), source_loc{"g.cpp", 9, "gn"}, (level::level_enum)l, fmt_string_view(t.data(), t.size())); e.line = 9; e.file = "g.cpp"; e.fn = "gn"; e.time = tm; break;
                        default: lg.log((level::level_enum)l, "{}-{}", t, 4); e.text = t + "-4"; }
                    h += " log" + std::to_string(l);
                    for (auto &k : {s, s2}) { auto g = k->take(); eq(g.size(), (size_t)(l >= lvl), h + " output count"); if (g.size()) same(g[0], e, h + " output"); if (g.size()) e.time = g[0].time; }
                    if (on) { mem.push_back(e); if (mem.size() > n) mem.pop_front(); } } } } });
    section("recorder", [] { Rng r(2); int N = thorough() ? 20000 : 2000;
        for (int i = 0; i < N; i++) { backtracer a; ok(!a.is_enabled(), "off at first"); std::vector<std::string> m; size_t n = 1 + r.below(5); a.enable_with_size(n); size_t k = r.below(12);
            for (size_t j = 0; j < k; j++) { std::string t = std::to_string(r.next()); a.push_back(log_msg(level::trace, t, "x")); m.push_back(t); if (m.size() > n) m.erase(m.begin()); }
            backtracer b(a), c; c.enable_with_size(2); c.push_back(log_msg(level::info, "old", "x")); c = a; a.push_back(log_msg(level::info, "extra", "x"));
            auto dump = [](backtracer &q) { std::vector<std::string> o; q.foreach_do([&](const log_msg &x) { o.push_back(std::string(x.msg.data(), x.msg.size())); }); return o; };
            ok(b.is_enabled() && c.is_enabled(), "copies keep the state"); ok(dump(b) == m, "copy"); ok(dump(c) == m, "assigned copy"); ok(dump(b).empty() && dump(c).empty(), "emptied"); m.push_back("extra"); if (m.size() > n) m.erase(m.begin());
            { backtracer off, x, y(b); x = b; ok(x.is_enabled(), "a copy assigned to one that is off is on"); y = off; ok(!y.is_enabled(), "off after assigning one that is off"); y.push_back(log_msg(level::info, "q", "x")); }
            backtracer d(std::move(a)); ok(dump(d) == m, "moved");
            d.disable(); ok(!d.is_enabled() && dump(d).empty(), "off"); d.enable_with_size(3); ok(d.is_enabled() && dump(d).empty(), "enabled again"); } });
    return finish();
}
