// C05: level gates, delivery to every sink, flushing, failing sinks (asan+ubsan).
#include "cap.h"
static void one(logger &lg, int l, const std::string &t, int how) {
    fmt_string_view v(t.data(), t.size());
    switch (how) { case 0: lg.log((level::level_enum)l, v); break; case 1: lg.log(source_loc{"f", 1, "g"}, (level::level_enum)l, v); break; case 2: lg.log(sys_clock::now(), source_loc{}, (level::level_enum)l, v); break; case 3: lg.log((level::level_enum)l, "{}", t); break;
        case 4: lg.log((level::level_enum)l, t); break; default: switch (l) { case 0: lg.trace(t); break; case 1: lg.debug(t); break; case 2: lg.info(t); break; case 3: lg.warn(t); break; case 4: lg.error(t); break; case 5: lg.critical(t); break; default: lg.log((level::level_enum)l, t); } } }
int main() {
    section("all level combinations", [] {
        for (int lg_l = 0; lg_l < 7; lg_l++) for (int fl = 0; fl < 7; fl++) for (int m = 0; m < 7; m++) for (int how = 0; how < 6; how++) {
            std::vector<CapP> s; std::vector<sink_shr_ptr> v; for (int i = 0; i < 7; i++) { s.push_back(cap(i, i)); v.push_back(s.back()); }
            logger lg("n", v.begin(), v.end()); lg.set_log_level((level::level_enum)lg_l); lg.set_flush_level((level::level_enum)fl); eq((int)lg.get_log_level(), lg_l, "level getter"); eq((int)lg.get_flush_level(), fl, "flush level getter");
            one(lg, m, "msg", how); std::string h = "logger " + std::to_string(lg_l) + " flush " + std::to_string(fl) + " msg " + std::to_string(m) + " how " + std::to_string(how);
            for (int i = 0; i < 7; i++) { bool out = m >= lg_l && m >= i; eq((int)s[i]->got.size(), (int)out, h + " sink " + std::to_string(i)); eq(s[i]->flushes, (int)(m >= lg_l && m >= fl && m != 6), h + " flush of sink " + std::to_string(i)); if (out) { eqs(s[i]->got[0].text, "msg", h); eq(s[i]->got[0].level, m, h); } } } });
    section("order, failing sinks", [] { Rng r(5); int N = thorough() ? 20000 : 1500; Err err;
        for (int i = 0; i < N; i++) { int n = r.below(6); std::vector<CapP> s; std::vector<sink_shr_ptr> v; std::vector<std::string> ev; int expect_reports = 0;
            for (int k = 0; k < n; k++) { auto c = cap(k, r.below(7)); if (r.below(3) == 0) c->throw_at = r.below(3); if (r.below(5) == 0) c->throw_flush = 1; Cap *p = c.get(); c->hook = [&ev, p](const Rec &x) { ev.push_back(std::to_string(p->id)); }; s.push_back(c); v.push_back(c); }
            logger lg("n", v.begin(), v.end()); int ll = r.below(7), fl = r.below(7); lg.set_log_level((level::level_enum)ll); lg.set_flush_level((level::level_enum)fl);
            for (int q = 0; q < 4; q++) { int m = r.below(7); std::string t(r.below(9), 'z'); ev.clear(); const void *a = nullptr; for (auto &c : s) { c->got.clear(); c->flushes = 0; c->order.clear(); } expect_reports = 0;
                one(lg, m, t, r.below(5)); std::vector<std::string> want; bool out = m >= ll, fls = out && m >= fl && m != 6;
                for (auto &c : s) { bool g = out && m >= (int)c->get_level(); if (g) { want.push_back(std::to_string(c->id)); expect_reports += (int)t.size() % 3 == c->throw_at; } if (fls) expect_reports += c->throw_flush;
                    eq((int)c->got.size(), (int)g, "delivered to sink"); eq(c->flushes, (int)fls, "flushed"); if (g) { if (a) ok(a == c->got[0].addr, "the very same message"); a = c->got[0].addr; } eqs(c->order, std::string(g ? "L" : "") + (fls ? "F" : ""), "flush after delivery"); }
                ok(ev == want, "sink order"); eq(err.reports(), expect_reports, "reports"); }
            for (auto &c : s) c->flushes = 0; lg.flush(); for (auto &c : s) eq(c->flushes, 1, "explicit flush"); err.take(); } });
    section("new loggers", [] {
        for (int how = 0; how < 5; how++) for (int n = 0; n < 5; n++) {
            std::vector<CapP> s; std::vector<sink_shr_ptr> v; std::vector<int> ev; for (int i = 0; i < n; i++) { auto c = cap(i, 0); c->hook = [&ev, i](const Rec &) { ev.push_back(i); }; s.push_back(c); v.push_back(c); }
            std::shared_ptr<logger> l; if (how == 0) { if (n) continue; l = std::make_shared<logger>("new"); } else if (how == 1) { if (n != 1) continue; l = std::make_shared<logger>("new", v[0]); } else if (how == 2) l = std::make_shared<logger>("new", v.begin(), v.end());
            else if (how == 3) { if (n != 2) continue; l = std::make_shared<logger>("new", sinks_init_list{v[0], v[1]}); } else { if (n != 3) continue; l = std::make_shared<logger>("new", sinks_init_list{v[0], v[1], v[2]}); }
            eqs(l->name(), "new", "name of a new logger"); eqs(l->get_pattern(), "%+", "pattern of a new logger"); eq((int)l->get_log_level(), (int)level::info, "level of a new logger"); eq((int)l->get_flush_level(), (int)level::off, "flush level of a new logger"); ok(!l->is_async(), "a new logger is synchronous"); eq(l->sinks().size(), v.size(), "sinks of a new logger"); ok(l->sinks() == v, "sinks of a new logger in order");
            for (int m = 0; m < 6; m++) { ev.clear(); l->log((level::level_enum)m, std::string("x")); std::vector<int> want; if (m >= 2) for (int i = 0; i < n; i++) want.push_back(i); ok(ev == want, "delivery by a new logger"); for (auto &c : s) eq(c->flushes, 0, "a new logger does not flush by itself"); } } });
    return finish();
}
